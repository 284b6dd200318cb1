From 8f249597c31b80b0233625a4b0d54061292fc07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 001/142] fix: read the suffix 'meg' as mega in any letter case

---
 spicelib/utils/float_unit.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spicelib/utils/float_unit.py b/spicelib/utils/float_unit.py
index e2deee9..31e4833 100644
--- a/spicelib/utils/float_unit.py
+++ b/spicelib/utils/float_unit.py
@@ -63,12 +63,12 @@ def parse_value(value, accept_invalid):
                 i += 1
 
             if i < l:  # Still has characters to consume
-                if value[i] in _MULT:
+                if value[i:].upper().startswith('MEG'):  # to support Spice like qualifier 'MEG'
+                    multiplier = 1E+6  # Not case-sensitive: 'meg' is not 'm'
+                    i += 3
+                elif value[i] in _MULT:
                     multiplier = _MULT[value[i]]
-                    if value[i:].upper().startswith('MEG'):  # to support Spice like qualifier 'MEG'
-                        i += 3
-                    else:
-                        i += 1
+                    i += 1
                 elif value[i].upper() == 'R':  # This supports the format 4R7
                     i += 1
                     unit = 'Ω'
-- 
2.43.0


From 68ebff2a9bf8fb1cb772a1f0ed29f96cb53d71b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 002/142] fix: sweep() and sweep_n() lose the stop value to
 floating point rounding

---
 spicelib/utils/sweep_iterators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spicelib/utils/sweep_iterators.py b/spicelib/utils/sweep_iterators.py
index 496b7a6..df59877 100644
--- a/spicelib/utils/sweep_iterators.py
+++ b/spicelib/utils/sweep_iterators.py
@@ -79,7 +79,9 @@ class sweep(BaseIterator):
     def __next__(self):
         val = self.start + self.niter * self.step
         self.niter += 1
-        if (self.step > 0 and val <= self.stop) or (self.step < 0 and val >= self.stop):
+        # the rounding errors of the floating point operations shall not exclude the stop value
+        margin = 1e-6 * self.step
+        if (self.step > 0 and val <= self.stop + margin) or (self.step < 0 and val >= self.stop + margin):
             return val
         else:
             self.finished = True
-- 
2.43.0


From 75db39c82f056d34e1fe1ee0a2721a2a9f9e9704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 003/142] fix: refuse logarithmic sweeps that never reach their
 end

---
 spicelib/utils/sweep_iterators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spicelib/utils/sweep_iterators.py b/spicelib/utils/sweep_iterators.py
index df59877..7022221 100644
--- a/spicelib/utils/sweep_iterators.py
+++ b/spicelib/utils/sweep_iterators.py
@@ -121,6 +121,7 @@ class sweep_log(BaseIterator):
             start = 1
         super().__init__(start, stop, step)
         assert step != 1 and step > 0, "Step must be higher than 0 and not 1"
+        assert self.start > 0 and self.stop > 0, "The start and stop of a logarithmic sweep must be higher than 0"
         if self.start < self.stop and self.step < 1:
             self.start, self.stop = self.stop, self.start
         elif self.stop < self.start and self.step > 1:
-- 
2.43.0


From a29970db9dc5df990c94b24e392470f634e75b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 004/142] fix: sweep_log() loses the stop value to rounding,
 and is empty when start equals stop

---
 spicelib/utils/sweep_iterators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spicelib/utils/sweep_iterators.py b/spicelib/utils/sweep_iterators.py
index 7022221..e6d7549 100644
--- a/spicelib/utils/sweep_iterators.py
+++ b/spicelib/utils/sweep_iterators.py
@@ -136,8 +136,9 @@ class sweep_log(BaseIterator):
     def __next__(self):
         val = self.val  # Store previous value
         self.val *= self.step  # Calculate the next item
-        if (self.start < self.stop and val <= self.stop) or \
-           (self.start > self.stop and val >= self.stop):
+        # the rounding errors of the floating point operations shall not exclude the stop value
+        if (self.step > 1 and val <= self.stop * (1 + 1e-9)) or \
+           (self.step < 1 and val >= self.stop * (1 - 1e-9)):
             return val
         else:
             self.finished = True
-- 
2.43.0


From fe4535f19e663098784eb5fd9c72ada6ef0be99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 005/142] fix: SimStepper misses combinations when a sweep is
 given as a generator or a shared sweep object

---
 spicelib/sim/sim_stepping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/sim/sim_stepping.py b/spicelib/sim/sim_stepping.py
index 4662917..7d54625 100644
--- a/spicelib/sim/sim_stepping.py
+++ b/spicelib/sim/sim_stepping.py
@@ -38,10 +38,10 @@ class StepInfo:
     def __init__(self, what: str, elem: str, iterable: Iterable):
         self.what = what
         self.elem = elem
-        self.iter = iterable
+        self.iter = list(iterable)  # The values are needed more than once, and the iterable may be exhaustible or shared
 
     def __len__(self):
-        return len(list(self.iter))
+        return len(self.iter)
 
     def __str__(self):
         return f"Iteration on {self.what} {self.elem} : {self.iter}"
-- 
2.43.0


From 9eef6e626328bb39eaaedc5c92bd2e2bb93abb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 006/142] fix: SimStepper announces simulations that are not
 run when a sweep is empty

---
 spicelib/sim/sim_stepping.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spicelib/sim/sim_stepping.py b/spicelib/sim/sim_stepping.py
index 7d54625..9e1c586 100644
--- a/spicelib/sim/sim_stepping.py
+++ b/spicelib/sim/sim_stepping.py
@@ -156,9 +156,8 @@ class SimStepper(AnyRunner):
         total = 1
         for step in self.iter_list:
             l = len(step)
-            if l:
-                total *= l
-            else:
+            total *= l
+            if not l:
                 _logger.debug(f"'{step}' is empty.")
         return total
 
-- 
2.43.0


From 93093d71902493f25b7d86f628405adfc08b8f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 007/142] fix: SimStepper.export_step_info fails without
 simulations or with values added between runs

---
 spicelib/sim/sim_stepping.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spicelib/sim/sim_stepping.py b/spicelib/sim/sim_stepping.py
index 9e1c586..eb87819 100644
--- a/spicelib/sim/sim_stepping.py
+++ b/spicelib/sim/sim_stepping.py
@@ -251,8 +251,10 @@ class SimStepper(AnyRunner):
         rows = [runno for runno in self.sim_info]
         rows.sort()
 
-        # Extract column names from the first dictionary
-        fieldnames = ['runno'] + list(self.sim_info[rows[0]].keys())
+        # Extract column names. Values may have been added in between simulations
+        fieldnames = ['runno']
+        for runno in rows:
+            fieldnames.extend(name for name in self.sim_info[runno] if name not in fieldnames)
 
         # Open a CSV file for writing
         with open(export_filename, 'w', newline='') as csvfile:
-- 
2.43.0


From 159e591394c0178f3425b946025a7a2f61cf16fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 008/142] fix: SimRunner: time out on elapsed time when waiting
 for resources, accept timeout=None

---
 spicelib/sim/sim_runner.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index ac882cf..dfa72a8 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -106,7 +106,7 @@ import logging
 import shutil
 import time
 from pathlib import Path
-from time import sleep, thread_time as clock
+from time import sleep
 from typing import Protocol, Any, TypeAlias
 
 from collections.abc import Callable, Iterator
@@ -562,8 +562,9 @@ class SimRunner(AnyRunner):
         if timeout is None:
             timeout = self.timeout
 
-        t0 = clock()  # Store the time for timeout calculation
-        while clock() - t0 < timeout + 1:  # Give one second slack in relation to the task timeout
+        t0 = time.time()  # Store the time for timeout calculation
+        # Give one second slack in relation to the task timeout. If timeout is None, there is no limit
+        while timeout is None or time.time() - t0 < timeout + 1:
             cmdline_switches = switches or self.cmdline_switches  # If switches are passed, they override the ones
             # inside the class.
 
@@ -629,7 +630,7 @@ class SimRunner(AnyRunner):
             t.edits = netlist.netlist_updates  # Copy is made in this assignment
         t.start()
         sleep(0.01)  # Give slack for the thread to start
-        t.join(timeout + 1)  # Give one second slack in relation to the task timeout
+        t.join(None if timeout is None else timeout + 1)  # Give one second slack in relation to the task timeout
         self.completed_tasks.append(t)
         if t.retcode == 0:
             self._okSim += 1
-- 
2.43.0


From 39ac0469b9e7828f211d88ec716841d1103c0920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 009/142] fix: SimRunner.wait_completion resets its timeout on
 each completion and does not give up when all is done

---
 spicelib/sim/sim_runner.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index dfa72a8..573dc16 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -720,9 +720,16 @@ class SimRunner(AnyRunner):
             stop_time = time.time() + timeout
         else:
             stop_time = None
+        completed = len(self.completed_tasks)
         while len(self.active_tasks) > 0:
             sleep(1)
             self.update_completed()
+            if len(self.active_tasks) == 0:
+                break  # everything finished, even if it is late
+            if timeout is not None and len(self.completed_tasks) != completed:
+                # the timeout is reset everytime that a simulation is completed
+                completed = len(self.completed_tasks)
+                stop_time = time.time() + timeout
             if timeout is None:
                 stop_time = self._maximum_stop_time()
             if stop_time is not None:  # This can happen if timeout was set as none everywhere
-- 
2.43.0


From d30e4b6e620252fd52e91867c115c6905f0ddf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 010/142] fix: RunTask.wait_results returns when the simulation
 failed with return code -1

---
 spicelib/sim/run_task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/run_task.py b/spicelib/sim/run_task.py
index 5998ed3..abc6ce1 100644
--- a/spicelib/sim/run_task.py
+++ b/spicelib/sim/run_task.py
@@ -213,6 +213,6 @@ class RunTask(threading.Thread):
         
         :returns: Tuple with the path to the raw file and the path to the log file. See get_results() for more details.
         """
-        while self.is_alive() or self.start_time is None or self.retcode == -1:
+        while self.is_alive() or self.start_time is None:
             sleep(0.1)
         return self.get_results()
-- 
2.43.0


From 895d3c6a193edb5e567809c8d478b0964e18ebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 011/142] fix: RunTask accepts callable objects without a name
 as callback

---
 spicelib/sim/run_task.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spicelib/sim/run_task.py b/spicelib/sim/run_task.py
index abc6ce1..99f3a08 100644
--- a/spicelib/sim/run_task.py
+++ b/spicelib/sim/run_task.py
@@ -163,7 +163,9 @@ class RunTask(threading.Thread):
                 callback_print = ', '.join([f"{key}={value}" for key, value in self.callback_args.items()])
             else:
                 callback_print = ''
-            self.print_info(_logger.info, f"Simulation Finished. Calling...{self.callback.__name__}(rawfile, logfile{callback_print})")
+            # Callable objects (ex: functools.partial) don't necessarily have a name
+            callback_name = getattr(self.callback, '__name__', None) or repr(self.callback)
+            self.print_info(_logger.info, f"Simulation Finished. Calling...{callback_name}(rawfile, logfile{callback_print})")
             try:
                 if self.callback_args is not None:
                     return_or_process = self.callback(self.raw_file, self.log_file, **self.callback_args)
-- 
2.43.0


From fa1c6cf9197ab7ae876fa0a780348f1255b8efd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 012/142] fix: RunTask does not wait forever for a callback
 process that died

---
 spicelib/sim/run_task.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/spicelib/sim/run_task.py b/spicelib/sim/run_task.py
index 99f3a08..ebb77bf 100644
--- a/spicelib/sim/run_task.py
+++ b/spicelib/sim/run_task.py
@@ -30,6 +30,7 @@ import traceback
 from collections.abc import Callable
 from copy import copy
 from pathlib import Path
+from queue import Empty
 from time import sleep
 from typing import Any
 
@@ -178,7 +179,7 @@ class RunTask(threading.Thread):
                 if isinstance(return_or_process, ProcessCallback):
                     proc = return_or_process
                     proc.start()
-                    self.callback_return = proc.queue.get()
+                    self.callback_return = self._get_process_result(proc)
                     proc.join()
                 else:
                     self.callback_return = return_or_process
@@ -191,6 +192,17 @@ class RunTask(threading.Thread):
             self.print_info(_logger.debug, "Simulation Callback not called.")
             self.callback_return = None
 
+    def _get_process_result(self, proc: ProcessCallback) -> Any:
+        """Waits for the result of a callback process. Returns None if the process ends without giving a result."""
+        while True:
+            alive = proc.is_alive()  # needs to be read before looking at the queue
+            try:
+                return proc.queue.get(timeout=0.1)
+            except Empty:
+                if not alive:
+                    self.print_info(_logger.error, "Callback process ended without returning a result")
+                    return None
+
     def get_results(self) -> Any | tuple[str, str] | None:
         """
         Returns the simulation outputs if the simulation and callback function has already finished.
-- 
2.43.0


From e9e367580b18b2418a8988daf3c39433ae43e26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 013/142] fix: Updates report the last update done to an item,
 even when it was deleted or added in between

---
 spicelib/editor/updates.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/spicelib/editor/updates.py b/spicelib/editor/updates.py
index 4e0688c..a250028 100644
--- a/spicelib/editor/updates.py
+++ b/spicelib/editor/updates.py
@@ -82,8 +82,8 @@ class Updates:
         if isinstance(item, (int, slice)):
             return self.netlist_updates[item]  # with item = slice, we could get a list here. Otherwise, it is a single Update
         elif isinstance(item, str):
-            # Try to get it by name
-            for update in self.netlist_updates:
+            # Try to get it by name, the last update done is the one that counts
+            for update in reversed(self.netlist_updates):
                 if update.name == item:
                     return update
             raise IndexError(f"The item {item} doesn't exit.")
@@ -99,10 +99,14 @@ class Updates:
 
     def add_update(self, name: str, value: UpdateValueType, updates: UpdateType):
         """Add an update to the list"""
-        for update in self.netlist_updates:
+        for i, update in enumerate(self.netlist_updates):
             if (update.name == name and
                     (name != "INSTRUCTION" or value == update.value) and  # if instruction then it should match
                     (update.updates == updates or updates == UpdateType.InvalidUpdate)):
+                if any(later.name == name and (name != "INSTRUCTION" or value == later.value)
+                       for later in self.netlist_updates[i + 1:]):
+                    # Something else was done to it in the meantime. The last update done needs to come last.
+                    self.netlist_updates.append(self.netlist_updates.pop(i))
                 break
         else:
             update = Update(name, value, updates)
@@ -121,9 +125,12 @@ class Updates:
 
     def parameter(self, name) -> UpdateValueType:
         "Get the update done to a parameter. Returns None if there wasn't any update."
-        for update in self.netlist_updates:
-            if update.updates in (UpdateType.UpdateParameter, UpdateType.AddParameter) and name == update.name:
-                return update.value
+        for update in reversed(self.netlist_updates):
+            if name == update.name:
+                if update.updates in (UpdateType.UpdateParameter, UpdateType.AddParameter):
+                    return update.value
+                if update.updates == UpdateType.DeleteParameter:
+                    return None
         return None
 
     def updates_on(self, name: str) -> list[Update]:
-- 
2.43.0


From eb180ff00e6c55a7f5c63b5bfdba979c122e87fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 014/142] fix: SimRunner result filters compare with the last
 update done to a name

---
 spicelib/sim/sim_runner.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 573dc16..78b4f71 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -176,12 +176,14 @@ class TaskIterator:
         if isinstance(self.conditions, dict):
             for name, value in self.conditions.items():
                 # all conditions must be met. Any failure to match will result in a rejection
-                for update in runtask.edits:
+                # the last update done to that name is the one that was simulated
+                for update in reversed(runtask.edits.netlist_updates):
                     if isinstance(update, Update):
-                        if name == update.name and (
-                            value == update.value or (isinstance(value, (list, tuple, set)) and update.value in value)
-                        ):
-                            break  # force the next iteration of `for name, value in self.conditions.items():`, making it an AND comparison
+                        if name == update.name:
+                            if value == update.value or (isinstance(value, (list, tuple, set)) and update.value in value):
+                                break  # force the next iteration of `for name, value in self.conditions.items():`, making it an AND comparison
+                            else:
+                                return False
                     else:
                         # this means: update is a list, but that can never happen, as we do for..in and not a slice
                         # anyway, this construction keeps lint happy
-- 
2.43.0


From 2d613efb36ca59ffe3b53b5a53959c9b0013e016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 015/142] fix: SimRunner gives a timed out simulation time to
 finish before giving up on it

---
 spicelib/sim/sim_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 78b4f71..2922b56 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -699,7 +699,7 @@ class SimRunner(AnyRunner):
         for task in self.active_tasks:
             tout = task.timeout if task.timeout is not None else self.timeout
             if tout is not None and task.start_time is not None:
-                stop = task.start_time + tout
+                stop = task.start_time + tout + 1  # One second slack, so that a task on timeout still gets to finish
                 if alarm is None:
                     alarm = stop
                 elif stop > alarm:
-- 
2.43.0


From 4dd3ee11eb999e712b874687c2c2a82a9ef5d659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 016/142] fix: SimRunner.cleanup_files removes the raw file
 left by a failed simulation

---
 spicelib/sim/sim_runner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 2922b56..797791a 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -777,6 +777,8 @@ class SimRunner(AnyRunner):
             self._del_file_if_exists(task.log_file)  # Delete the log file if was created
             self._del_file_if_exists(netlistfile.with_suffix('.exe.log'))  # Delete the log file if was created
             self._del_file_if_exists(task.raw_file)  # Delete the raw file if was created
+            # A failed simulation may have left a raw file as well
+            self._del_file_ext_if_exists(netlistfile, task.simulator.raw_extension)
 
             if netlistfile.suffix == '.net' or netlistfile.suffix == '.asc':
                 # Delete the files that have been potentially created by LTSpice
-- 
2.43.0


From 615802a6bfad0654cce55bde92c1373ed3d9f60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 017/142] fix: ServerSimRunner does not hide Thread._stop, its
 thread can be joined

---
 spicelib/client_server/srv_sim_runner.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spicelib/client_server/srv_sim_runner.py b/spicelib/client_server/srv_sim_runner.py
index b25748f..ca65429 100644
--- a/spicelib/client_server/srv_sim_runner.py
+++ b/spicelib/client_server/srv_sim_runner.py
@@ -73,7 +73,7 @@ class ServerSimRunner(threading.Thread):
         self.runner = SimRunner(simulator=simulator, parallel_sims=parallel_sims, timeout=timeout,
                                 verbose=verbose, output_folder=output_folder)
         self.completed_tasks: list[dict[str, Any]] = []  # This is a list of dictionaries with the information of the completed tasks
-        self._stop = False
+        self._stop_requested = False
 
     def run(self) -> None:
         """
@@ -105,7 +105,7 @@ class ServerSimRunner(threading.Thread):
                 _logger.debug(len(self.completed_tasks))
 
             time.sleep(0.2)
-            if self._stop is True:
+            if self._stop_requested is True:
                 break
         self.runner.wait_completion()
         self.runner.cleanup_files()  # Delete things that have been left behind
@@ -158,7 +158,7 @@ class ServerSimRunner(threading.Thread):
 
     def stop(self):
         _logger.info("stopping...ServerSimRunner")
-        self._stop = True
+        self._stop_requested = True
 
     def running(self):
-        return self._stop is False
+        return self._stop_requested is False
-- 
2.43.0


From 64cb74d4b8d96f286de675a509582f821bab85bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 018/142] fix: SimServer.stop_server no longer blocks forever
 when it is called by a client

---
 spicelib/client_server/sim_server.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spicelib/client_server/sim_server.py b/spicelib/client_server/sim_server.py
index 6e58ad6..121e769 100644
--- a/spicelib/client_server/sim_server.py
+++ b/spicelib/client_server/sim_server.py
@@ -194,7 +194,11 @@ class SimServer:
         """
         _logger.debug("Server: stopping...ServerInterface")
         self.simulation_manager.stop()
-        self.server.shutdown()
+        if threading.current_thread() is self.server_thread:
+            # Called by a client: shutdown() waits for the end of the request that is being served, so it can't be done here
+            threading.Thread(target=self.server.shutdown, name="ServerShutdown").start()
+        else:
+            self.server.shutdown()
         _logger.info("Server: stopped...ServerInterface")
         return True  # Needs to return always something. None is not supported
 
-- 
2.43.0


From 5e2210b4d36ac563db1d7b7d661512be5ab7967a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 019/142] fix: SimClient iteration copes with jobs not yet
 transferred and with refused jobs

---
 spicelib/client_server/sim_client.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spicelib/client_server/sim_client.py b/spicelib/client_server/sim_client.py
index 80f2c89..7fc4faa 100644
--- a/spicelib/client_server/sim_client.py
+++ b/spicelib/client_server/sim_client.py
@@ -181,8 +181,9 @@ class SimClient:
 
             # server side method signature: def run(self, session_id: str, circuit_name: str, zip_data: Binary) -> int
             run_id = int(self.server.run(self.session_id, circuit_name, zip_data))  # type: ignore
-            job_info = JobInformation(run_number=run_id, file_dir=circuit_path.parent)
-            self.started_jobs[run_id] = job_info
+            if run_id != -1:  # The server has accepted the job
+                job_info = JobInformation(run_number=run_id, file_dir=circuit_path.parent)
+                self.started_jobs[run_id] = job_info
             return run_id
         else:
             _logger.error(f"Client: Circuit {circuit} doesn't exit")
@@ -218,8 +219,9 @@ class SimClient:
         while len(self.started_jobs) > 0:
             # server side method signature: def status(self, session_id: str) -> list[int]
             status: list[int] = self.server.status(self.session_id)  # type: ignore
-            if len(status) > 0:
-                runno = status.pop(0)
+            # The server lists a job until its data is transferred, skip the ones that were already given
+            runno = next((no for no in status if no in self.started_jobs), None)
+            if runno is not None:
                 self.stored_jobs[runno] = self.started_jobs.pop(runno)  # Job is taken out of the started jobs list and
                 # is added to the stored jobs
                 return runno
-- 
2.43.0


From 05510d18bbcdfab626456fa4a7ed268e4d19d13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:22 +0000
Subject: [PATCH 020/142] fix: SimRunner.update_completed can be called from
 more than one thread

---
 spicelib/sim/sim_runner.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 797791a..8444ab3 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -104,6 +104,7 @@ __all__ = ['SimRunner', 'SimRunnerTimeoutError', 'AnyRunner', 'ProcessCallback',
 import inspect  # Library used to get the arguments of the callback function
 import logging
 import shutil
+import threading
 import time
 from pathlib import Path
 from time import sleep
@@ -318,6 +319,7 @@ class SimRunner(AnyRunner):
         self.parallel_sims = parallel_sims
         self.active_tasks: list[RunTask] = []
         self.completed_tasks: list[RunTask] = []
+        self._tasks_lock = threading.RLock()  # Protects the two lists above
 
         self._runno = 0  # number of total runs
         self._failSim = 0  # number of failed simulations
@@ -655,18 +657,19 @@ class SimRunner(AnyRunner):
         :returns: Nothing
         :meta private:
         """
-        i = 0
-        while i < len(self.active_tasks):
-            if self.active_tasks[i].is_alive() or self.active_tasks[i].start_time is None:  # running or not yet started
-                i += 1
-            else:
-                if self.active_tasks[i].retcode == 0:
-                    self._okSim += 1
+        with self._tasks_lock:  # The lists can be updated from more than one thread (ex: ServerSimRunner)
+            i = 0
+            while i < len(self.active_tasks):
+                if self.active_tasks[i].is_alive() or self.active_tasks[i].start_time is None:  # running or not yet started
+                    i += 1
                 else:
-                    # simulation failed
-                    self._failSim += 1
-                task = self.active_tasks.pop(i)
-                self.completed_tasks.append(task)
+                    if self.active_tasks[i].retcode == 0:
+                        self._okSim += 1
+                    else:
+                        # simulation failed
+                        self._failSim += 1
+                    task = self.active_tasks.pop(i)
+                    self.completed_tasks.append(task)
 
     def kill_all_ltspice(self):
         """
-- 
2.43.0


From 3ad2aa3888f40624811635a87512b2287c1447f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:22 +0000
Subject: [PATCH 021/142] fix: SimServer forgets a job without results once the
 client asked for its files

---
 spicelib/client_server/sim_server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/client_server/sim_server.py b/spicelib/client_server/sim_server.py
index 121e769..36bd6b1 100644
--- a/spicelib/client_server/sim_server.py
+++ b/spicelib/client_server/sim_server.py
@@ -156,7 +156,8 @@ class SimServer:
                     zip_file = task_info['zipfile']
                     if not zip_file:
                         _logger.error(f"Server: get_files({session_id}, {runno}) no zip file found. Probably crashed.")
-                        continue
+                        self.simulation_manager.erase_files_of_runno(runno)
+                        break
                     zip = zip_file.open('rb')
                     # Read the zip file from the buffer and send it to the server
                     zip_data = zip.read()
-- 
2.43.0


From cdb938265a4f9d114e596f4d00cfe65598055bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 022/142] fix: SimServer closing a session erases the files of
 its running simulations when they finish

---
 spicelib/client_server/sim_server.py     | 11 +++--
 spicelib/client_server/srv_sim_runner.py | 52 ++++++++++++++++--------
 2 files changed, 44 insertions(+), 19 deletions(-)

diff --git a/spicelib/client_server/sim_server.py b/spicelib/client_server/sim_server.py
index 36bd6b1..86e014e 100644
--- a/spicelib/client_server/sim_server.py
+++ b/spicelib/client_server/sim_server.py
@@ -156,19 +156,24 @@ class SimServer:
                     zip_file = task_info['zipfile']
                     if not zip_file:
                         _logger.error(f"Server: get_files({session_id}, {runno}) no zip file found. Probably crashed.")
-                        self.simulation_manager.erase_files_of_runno(runno)
+                        self._forget_run(session_id, runno)
                         break
                     zip = zip_file.open('rb')
                     # Read the zip file from the buffer and send it to the server
                     zip_data = zip.read()
                     zip.close()
-                    self.simulation_manager.erase_files_of_runno(runno)
+                    self._forget_run(session_id, runno)
                     _logger.debug(f"Server: get_files({session_id}, {runno}) returns zip file name {zip_file.name}")
                     return zip_file.name, Binary(zip_data)
 
         _logger.debug(f"Server: get_files({session_id}, {runno}) returns no data")
         return "", Binary(b'')  # Returns and empty data
 
+    def _forget_run(self, session_id: str, runno: int) -> None:
+        """Erases the files and the information of a run that was delivered to the client"""
+        self.simulation_manager.erase_files_of_runno(runno)
+        self.sessions[session_id].remove(runno)
+
     def close_session(self, session_id: str) -> bool:
         """Cleans all the pending sim_tasks with the session_id.
 
@@ -181,7 +186,7 @@ class SimServer:
         for runno in self.sessions[session_id]:
             _logger.info(f"Closing session {session_id}, erasing all files associated with run {runno}")
             try:
-                self.simulation_manager.erase_files_of_runno(runno)
+                self.simulation_manager.discard_runno(runno)
             except Exception as e:
                 _logger.error(f"Closing session {session_id}: error erasing files for run {runno}: {e}")
         del self.sessions[session_id]
diff --git a/spicelib/client_server/srv_sim_runner.py b/spicelib/client_server/srv_sim_runner.py
index ca65429..71f0bf0 100644
--- a/spicelib/client_server/srv_sim_runner.py
+++ b/spicelib/client_server/srv_sim_runner.py
@@ -73,6 +73,8 @@ class ServerSimRunner(threading.Thread):
         self.runner = SimRunner(simulator=simulator, parallel_sims=parallel_sims, timeout=timeout,
                                 verbose=verbose, output_folder=output_folder)
         self.completed_tasks: list[dict[str, Any]] = []  # This is a list of dictionaries with the information of the completed tasks
+        self._discarded: set[int] = set()  # Runs that are no longer needed, but which are not yet finished
+        self._lock = threading.RLock()  # Protects the two attributes above
         self._stop_requested = False
 
     def run(self) -> None:
@@ -86,10 +88,22 @@ class ServerSimRunner(threading.Thread):
         When the server is stopped this process cleans all the files that were not yet cleaned.
         """
         while True:
-            self.runner.update_completed()
-            while len(self.runner.completed_tasks) > 0:
-                task = self.runner.completed_tasks.pop(0)
-                zip_filename = task.callback_return
+            self._collect_completed()
+            time.sleep(0.2)
+            if self._stop_requested is True:
+                break
+        self.runner.wait_completion()
+        self._collect_completed()
+        self.cleanup_completed()  # Delete things that have been left behind
+        self.runner.cleanup_files()
+
+    def _collect_completed(self):
+        """Moves the completed tasks of the runner to this class"""
+        self.runner.update_completed()
+        while len(self.runner.completed_tasks) > 0:
+            task = self.runner.completed_tasks.pop(0)
+            zip_filename = task.callback_return
+            with self._lock:
                 self.completed_tasks.append({
                     'runno': task.runno,
                     'retcode': task.retcode,
@@ -103,12 +117,9 @@ class ServerSimRunner(threading.Thread):
                 _logger.debug(f"Task {task} is finished")
                 _logger.debug(self.completed_tasks[-1])
                 _logger.debug(len(self.completed_tasks))
-
-            time.sleep(0.2)
-            if self._stop_requested is True:
-                break
-        self.runner.wait_completion()
-        self.runner.cleanup_files()  # Delete things that have been left behind
+                if task.runno in self._discarded:
+                    self._discarded.remove(task.runno)
+                    self.erase_files_of_runno(task.runno)
 
     def add_simulation(self, netlist: str | Path | BaseEditor, *, timeout: float | None = None) -> int:
         """
@@ -146,15 +157,24 @@ class ServerSimRunner(threading.Thread):
         """Will delete all files related with a completed task. Will also delete information on the completed_tasks
         attribute."""
         _logger.debug(f"deleting files of run {runno}")
-        for i, task_info in enumerate(self.completed_tasks):
-            if task_info['runno'] == runno:
-                self._erase_files_and_info(i)
-                break
+        with self._lock:
+            for i, task_info in enumerate(self.completed_tasks):
+                if task_info['runno'] == runno:
+                    self._erase_files_and_info(i)
+                    return True
+        return False
+
+    def discard_runno(self, runno):
+        """Will delete all files related with a task that is no longer needed, as soon as it is completed."""
+        with self._lock:
+            if not self.erase_files_of_runno(runno):
+                self._discarded.add(runno)
 
     def cleanup_completed(self):
         _logger.debug("deleting all files of all completed tasks")
-        while len(self.completed_tasks):
-            self._erase_files_and_info(0)
+        with self._lock:
+            while len(self.completed_tasks):
+                self._erase_files_and_info(0)
 
     def stop(self):
         _logger.info("stopping...ServerSimRunner")
-- 
2.43.0


From 60f3855c5d0f9212c8ad2c6263e8f152e79a4c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 023/142] fix: ServerSimRunner erases all the files created by
 a simulation, also if it failed

---
 spicelib/client_server/srv_sim_runner.py |  5 +++
 spicelib/sim/sim_runner.py               | 41 +++++++++++++++---------
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/spicelib/client_server/srv_sim_runner.py b/spicelib/client_server/srv_sim_runner.py
index 71f0bf0..378f134 100644
--- a/spicelib/client_server/srv_sim_runner.py
+++ b/spicelib/client_server/srv_sim_runner.py
@@ -105,6 +105,7 @@ class ServerSimRunner(threading.Thread):
             zip_filename = task.callback_return
             with self._lock:
                 self.completed_tasks.append({
+                    'task': task,
                     'runno': task.runno,
                     'retcode': task.retcode,
                     'circuit': task.netlist_file,
@@ -151,6 +152,10 @@ class ServerSimRunner(threading.Thread):
                         _logger.debug(f"deleted file {f}")
                     except Exception as e:
                         _logger.error(f"Error deleting file {f}: {e}")
+        try:
+            self.runner.cleanup_task_files(task['task'])  # everything else that the simulator has created
+        except OSError as e:
+            _logger.error(f"Error deleting files of run {task['runno']}: {e}")
         del self.completed_tasks[pos]
 
     def erase_files_of_runno(self, runno):
diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 8444ab3..88e10c6 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -775,22 +775,31 @@ class SimRunner(AnyRunner):
         self.update_completed()  # Updates the active_tasks and completed_tasks lists
 
         for task in self.completed_tasks:
-            netlistfile = task.netlist_file
-            self._del_file_if_exists(netlistfile)  # Delete the netlist file if still exists
-            self._del_file_if_exists(task.log_file)  # Delete the log file if was created
-            self._del_file_if_exists(netlistfile.with_suffix('.exe.log'))  # Delete the log file if was created
-            self._del_file_if_exists(task.raw_file)  # Delete the raw file if was created
-            # A failed simulation may have left a raw file as well
-            self._del_file_ext_if_exists(netlistfile, task.simulator.raw_extension)
-
-            if netlistfile.suffix == '.net' or netlistfile.suffix == '.asc':
-                # Delete the files that have been potentially created by LTSpice
-                for ext in ('.log.raw', '.op.raw', '.db'):
-                    self._del_file_ext_if_exists(netlistfile, ext)
-
-                if netlistfile.suffix == '.asc':
-                    # If simulated from an asc file, delete the .net file
-                    self._del_file_ext_if_exists(netlistfile, '.net')
+            self.cleanup_task_files(task)
+
+    def cleanup_task_files(self, task: RunTask):
+        """
+        Will delete all the files that were created by a completed task.
+
+        :param task: the completed task
+        :meta private:
+        """
+        netlistfile = task.netlist_file
+        self._del_file_if_exists(netlistfile)  # Delete the netlist file if still exists
+        self._del_file_if_exists(task.log_file)  # Delete the log file if was created
+        self._del_file_if_exists(netlistfile.with_suffix('.exe.log'))  # Delete the log file if was created
+        self._del_file_if_exists(task.raw_file)  # Delete the raw file if was created
+        # A failed simulation may have left a raw file as well
+        self._del_file_ext_if_exists(netlistfile, task.simulator.raw_extension)
+
+        if netlistfile.suffix == '.net' or netlistfile.suffix == '.asc':
+            # Delete the files that have been potentially created by LTSpice
+            for ext in ('.log.raw', '.op.raw', '.db'):
+                self._del_file_ext_if_exists(netlistfile, ext)
+
+            if netlistfile.suffix == '.asc':
+                # If simulated from an asc file, delete the .net file
+                self._del_file_ext_if_exists(netlistfile, '.net')
 
     def file_cleanup(self):
         """
-- 
2.43.0


From d1130b678e40c18f6bb05bd8384dbf3090f8bc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 024/142] fix: .PARAM values that are expressions, names
 starting with E and comments are read and edited correctly

---
 spicelib/editor/asc_editor.py       | 10 +++-------
 spicelib/editor/base_editor.py      | 22 ++++++++++++++++++++--
 spicelib/editor/qsch_editor.py      |  9 +++------
 spicelib/editor/spice_subcircuit.py | 17 +++++++----------
 4 files changed, 33 insertions(+), 25 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 8514f08..b356c2c 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -35,7 +35,7 @@ from ..simulators.ltspice_simulator import LTspice
 from ..utils.file_search import search_file_in_containers
 from .primitives import format_eng
 from .editor_errors import ComponentNotFoundError, ParameterNotFoundError, ValueNotFoundError
-from .base_editor import PARAM_REGEX, ValueType
+from .base_editor import PARAM_REGEX, ValueType, find_parameters
 from .base_schematic import (BaseSchematic, Point, Line, Shape, Text, SchematicComponent, ERotation, TextTypeEnum, Port)
 from .asy_reader import AsyReader
 
@@ -534,13 +534,11 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
 
     def _get_param_named(self, param_name):
         param_name_uppercase = param_name.upper()
-        search_expression = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
         for directive in self.directives:
             if directive.type == TextTypeEnum.COMMENT:
                 continue  # this is a comment, skip it            
             if directive.text.upper().startswith(".PARAM"):
-                matches = search_expression.finditer(directive.text)
-                for match in matches:
+                for match in find_parameters(directive.text):
                     if match.group("name").upper() == param_name_uppercase:
                         return match, directive
         return None, None
@@ -548,13 +546,11 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
     def get_all_parameter_names(self) -> list[str]:
         # docstring inherited from BaseEditor
         param_names = []
-        search_expression = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
         for directive in self.directives:
             if directive.type == TextTypeEnum.COMMENT:
                 continue  # this is a comment, skip it
             if directive.text.upper().startswith(".PARAM"):
-                matches = search_expression.finditer(directive.text)
-                for match in matches:            
+                for match in find_parameters(directive.text):
                     param_name = match.group('name')
                     param_names.append(param_name.upper())
         return sorted(param_names)
diff --git a/spicelib/editor/base_editor.py b/spicelib/editor/base_editor.py
index 3a0afec..386826e 100644
--- a/spicelib/editor/base_editor.py
+++ b/spicelib/editor/base_editor.py
@@ -24,7 +24,8 @@ from pathlib import Path
 import logging
 import os
 import io
-from typing import TypeAlias, Final
+import re
+from typing import Iterator, TypeAlias, Final
 
 from ..sim.simulator import Simulator
 from .updates import Updates, UpdateType, UpdatePermission
@@ -36,8 +37,25 @@ ValueType: TypeAlias = str | float | int | complex
 SUBCKT_DIVIDER: Final[str] = ':'  #: This controls the sub-circuit divider when setting component values inside sub-circuits.
 # Ex: Editor.set_component_value('XU1:R1', '1k')
 
+# A parameter value without spaces, except if they are inside of () or {}. A comma is only part of it when inside a value.
+_PARAM_ATOM = r"(?:[^\s;=(){}\"',]|,(?!\s|\w+\s*=)|\((?:[^()]|\([^()]*\))*\)|\{[^{}]*\})+"
+
+
 def PARAM_REGEX(pname):
-    return r"(?P<name>" + pname + r")\s*[= ]\s*(?P<value>(?P<cb>\{)?(?(cb)[^\}]*\}|(?P<st>\")?(?(st)[^\"]*\"|[\d\.\+\-Ee]+[a-zA-Z%]*)))"
+    return (r"(?<![\w.])(?P<name>" + pname + r")(?:\s*=\s*|\s+(?=[-+.\d{\"']))"
+            r"(?P<value>\"[^\"]*\"|'[^']*'|" + _PARAM_ATOM + r"(?:[ \t]*[-+*/^]+[ \t]*" + _PARAM_ATOM + r")*)")
+
+
+_PARAM_OR_COMMENT = re.compile(r";[^\r\n]*|" + PARAM_REGEX(r"\w+"), re.IGNORECASE)
+
+
+def find_parameters(text: str) -> Iterator[re.Match]:
+    """Iterates over the parameter definitions (name=value) of a .PARAM line, skipping the comments.
+    Each match has the groups 'name' and 'value'.
+
+    :meta private:
+    """
+    return (match for match in _PARAM_OR_COMMENT.finditer(text) if match.group('name'))
 
 
 class BaseEditor(ABC):
diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index f5e4c8f..d8b425f 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -27,7 +27,7 @@ import logging
 from .base_subcircuit import BaseSubCircuit
 from .primitives import format_eng
 from .editor_errors import ComponentNotFoundError, ParameterNotFoundError, ValueNotFoundError
-from .base_editor import PARAM_REGEX, ValueType
+from .base_editor import PARAM_REGEX, ValueType, find_parameters
 from .spice_utils import UNIQUE_SIMULATION_DOT_INSTRUCTIONS
 from .base_schematic import (BaseSchematic, SchematicComponent, Point, ERotation, Line, Text, TextTypeEnum,
                              LineStyle, Shape)
@@ -1033,7 +1033,6 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
         self.update_permission = UpdatePermission.Inform
 
     def _get_param_named(self, param_name):
-        param_regex = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
         param_name_upped = param_name.upper()
         text_tags = self.schematic.get_items('text')  # pyright: ignore[reportOptionalMemberAccess] # Connection to directives and comments
         for tag in text_tags:
@@ -1042,7 +1041,7 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             line: str = tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
             line = line.lstrip(QSCH_TEXT_INSTR_QUALIFIER)
             if line.upper().startswith('.PARAM'):
-                for match in param_regex.finditer(line):
+                for match in find_parameters(line):
                     if match.group("name").upper() == param_name_upped:
                         return tag, match
         else:
@@ -1051,7 +1050,6 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
     def get_all_parameter_names(self) -> list[str]:
         # docstring inherited from BaseEditor
         param_names = []
-        param_regex = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
         text_tags = self.schematic.get_items('text') # pyright: ignore[reportOptionalMemberAccess] # Connection to directives and comments
         for tag in text_tags:
             if tag.get_attr(QSCH_TEXT_COMMENT) == 1:  # if it is a comment, we ignore it
@@ -1059,8 +1057,7 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             line: str = tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
             line = line.lstrip(QSCH_TEXT_INSTR_QUALIFIER)
             if line.upper().startswith('.PARAM'):
-                matches = param_regex.finditer(line)
-                for match in matches:
+                for match in find_parameters(line):
                     param_name = match.group('name')
                     param_names.append(param_name.upper())
         return sorted(param_names)
diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index def7fc9..d29d467 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -32,7 +32,7 @@ from .updates import UpdateType, UpdatePermission
 from .base_subcircuit import BaseSubCircuit
 from .spice_components import SpiceComponent, component_replace_regexs, _insert_section
 from .spice_subcircuit_instance import SpiceCircuitInstance
-from .base_editor import SUBCKT_DIVIDER, PARAM_REGEX, BaseEditor
+from .base_editor import SUBCKT_DIVIDER, find_parameters, BaseEditor
 
 from ..utils.detect_encoding import detect_encoding, EncodingDetectError
 from ..utils.file_search import search_file_in_containers
@@ -249,7 +249,6 @@ class SpiceCircuit(BaseSubCircuit):
         Internal function. Do not use. Returns a line starting with command and matching the search with the regular
         expression
         """
-        search_expression = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
         param_name_upped = param_name.upper()
         line_no = 0
         while line_no < len(self.netlist):
@@ -272,8 +271,7 @@ class SpiceCircuit(BaseSubCircuit):
                 line: str = line.obj
             cmd = get_line_command(line) # pyright: ignore[reportArgumentType]
             if cmd == '.PARAM':
-                matches = search_expression.finditer(line)
-                for match in matches:
+                for match in find_parameters(line):
                     if match.group("name").upper() == param_name_upped:
                         return line_no, match, self.netlist
             line_no += 1
@@ -282,7 +280,6 @@ class SpiceCircuit(BaseSubCircuit):
     def get_all_parameter_names(self) -> list[str]:
         # docstring inherited from BaseEditor
         param_names = []
-        search_expression = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
         for line in self.netlist:
             if isinstance(line, IncludeFile):  # same for include files
                 if line.editor and isinstance(line.editor, SpiceCircuit):
@@ -293,8 +290,7 @@ class SpiceCircuit(BaseSubCircuit):
                 line: str = line.obj # pyright: ignore[reportAssignmentType]
             cmd = get_line_command(line)
             if cmd == '.PARAM':
-                matches = search_expression.finditer(line)
-                for match in matches:
+                for match in find_parameters(line):
                     param_name = match.group('name')
                     param_names.append(param_name.upper())
         return sorted(param_names)
@@ -624,10 +620,11 @@ class SpiceCircuit(BaseSubCircuit):
             if value is None:
                 # Remove the parameter from the netlist
                 if isinstance(netlist[param_line], Primitive):
-                    netlist[param_line]._obj = re.sub(PARAM_REGEX(param), '', netlist[param_line].obj, flags=re.IGNORECASE)
+                    start, stop = match.span()
+                    line: str = netlist[param_line].obj
+                    netlist[param_line]._obj = line[:start] + line[stop:]
                     # if no other parameters are left, remove the line from the netlist
-                    all_params = re.findall(PARAM_REGEX(r"\w+"), netlist[param_line].obj, flags=re.IGNORECASE)
-                    if len(all_params) == 0:  # If the line is empty or only has .PARAM, remove it from the netlist
+                    if not any(find_parameters(netlist[param_line].obj)):  # If the line is empty or only has .PARAM, remove it from the netlist
                         netlist[param_line] = '* SpiceEditor removed empty .PARAM line' + END_LINE_TERM
                 if permission == UpdatePermission.Inform:
                     self.end_update(param, None, UpdateType.DeleteParameter)
-- 
2.43.0


From 091e47e5d0e17798cf8332538be0e876aff3eed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 025/142] fix: statements are added to a netlist after the
 title and before the end of the circuit

---
 spicelib/editor/spice_file.py       | 12 ++----------
 spicelib/editor/spice_subcircuit.py | 27 ++++++++++++++++-----------
 2 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/spicelib/editor/spice_file.py b/spicelib/editor/spice_file.py
index ae56de0..2f84959 100644
--- a/spicelib/editor/spice_file.py
+++ b/spicelib/editor/spice_file.py
@@ -69,16 +69,8 @@ class SpiceFile(BaseEditor, SpiceCircuit):
         # TODO: if adding a .MODEL or .SUBCKT it should verify if it already exists and update it.
 
         # Insert at the end
-        line = len(self.netlist) - 1
-        # If there is .backanno, then it will be added just before that statement
-        for nr, linecontent in enumerate(self.netlist):
-            if isinstance(linecontent, Primitive): # only Primitive can have .backanno
-                if linecontent.obj.lower().startswith('.backanno'): # pyright: ignore[reportOptionalMemberAccess]
-                    line = nr
-                    break
-
         primitive = self.class_for_instruction(instruction, cmd)
-        self.netlist.insert(line, primitive)
+        self.netlist.insert(self._insert_position(), primitive)
 
         if permission == UpdatePermission.Inform:
             self.end_update("INSTRUCTION", instruction.strip(), UpdateType.AddInstruction)
@@ -175,7 +167,7 @@ class SpiceFile(BaseEditor, SpiceCircuit):
         self.update_permission = UpdatePermission.Initializing
         finished = True
         if kwargs.get('create_blank', False):
-            self._add_lines(['* netlist generated from spicelib'])
+            self._add_lines(['* netlist generated from spicelib' + END_LINE_TERM])
         elif self.circuit_file.exists():
             with open(self.circuit_file, encoding=self.encoding, errors='replace') as f:
                 lines = separate_lines(f)  # pyright: ignore[reportArgumentType] # Creates an iterator object to consume the file
diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index d29d467..8d02b74 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -244,6 +244,17 @@ class SpiceCircuit(BaseSubCircuit):
             else:
                 raise RuntimeError("Unknown primitive type found in netlist")
 
+    def _insert_position(self) -> int:
+        """Internal function. Do not use.
+        Returns the index where new statements are to be inserted: before the .BACKANNO, if there is one, otherwise just
+        before the .END or .ENDS that ends the netlist."""
+        for line_no, line in enumerate(self.netlist):
+            if type(line) is Primitive:
+                cmd = get_line_command(line)
+                if cmd in ('.BACKANNO', '.END', '.ENDS'):
+                    return line_no
+        return len(self.netlist)
+
     def _get_parameter_named(self, param_name) -> tuple[int, re.Match | None, list | None]:
         """
         Internal function. Do not use. Returns a line starting with command and matching the search with the regular
@@ -391,6 +402,8 @@ class SpiceCircuit(BaseSubCircuit):
         """
         if len(self.netlist):
             for line in self.netlist:
+                if isinstance(line, SpiceCircuit):
+                    continue  # This is the definition of another sub-circuit
                 if isinstance(line, Primitive):
                     line: str = line.obj # pyright: ignore[reportAssignmentType]
                 m = subckt_regex.search(line)
@@ -637,10 +650,8 @@ class SpiceCircuit(BaseSubCircuit):
                     self.end_update(param, value_str, UpdateType.UpdateParameter)
         else:
             # Was not found
-            # the last two lines are typically (.backano and .end)
-            insert_line = len(self.netlist) - 2
             term = Primitive(netlist=self, obj=f'.PARAM {param}={value_str}  ; Batch instruction' + END_LINE_TERM)
-            self.netlist.insert(insert_line, term)
+            self.netlist.insert(self._insert_position(), term)
             if permission == UpdatePermission.Inform:
                 self.end_update(param, value, UpdateType.AddParameter)
 
@@ -782,12 +793,7 @@ class SpiceCircuit(BaseSubCircuit):
             comp = self.get_component(kwargs['insert_after'])
             line_no = self.netlist.index(comp) + 1
         else:
-            # Insert before backanno instruction
-            try:
-                line_no = self.netlist.index(
-                    '.backanno\n')  # TODO: Improve this. END of line termination could be differnt
-            except ValueError:
-                line_no = len(self.netlist) - 2
+            line_no = self._insert_position()
 
         self.netlist.insert(line_no, component)
         if permission == UpdatePermission.Inform:
@@ -880,8 +886,7 @@ class SpiceCircuit(BaseSubCircuit):
 
         # Insert at the end
         primitive = self.class_for_instruction(instruction, cmd)
-        line = len(self.netlist) - 1  # Just before the ENDS
-        self.netlist.insert(line, primitive)
+        self.netlist.insert(self._insert_position(), primitive)
 
     def remove_instruction(self, instruction) -> bool:
         # docstring is in the parent class
-- 
2.43.0


From b2c79029e0f0e01283bec8a6323ec580bf2aca7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 026/142] fix: add_component accepts new components and
 replaces an existing one

---
 spicelib/editor/spice_components.py |  2 +-
 spicelib/editor/spice_subcircuit.py | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_components.py b/spicelib/editor/spice_components.py
index fb12595..c750d92 100644
--- a/spicelib/editor/spice_components.py
+++ b/spicelib/editor/spice_components.py
@@ -392,7 +392,7 @@ class SpiceComponent(Component):
         :return: number of characters written
         :rtype: int
         """
-        if self._obj != "":
+        if self._obj:
             # try to rewrite the line preserving formatting
             return self.rewrite_lines(stream)
 
diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 8d02b74..a2e38c5 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -786,16 +786,26 @@ class SpiceCircuit(BaseSubCircuit):
         permission = self.begin_update()
         if permission == UpdatePermission.Deny:
             raise ValueError("Editor is read-only")
+        component._netlist = self  # From now on its updates are done to this netlist
+        old_line_no = None
+        for line_no, line in enumerate(self.netlist):
+            if isinstance(line, SpiceComponent) and line.reference.upper() == component.reference.upper():
+                old_line_no = line_no
+                break
         if 'insert_before' in kwargs:
             comp = self.get_component(kwargs['insert_before'])
             line_no = self.netlist.index(comp)
         elif 'insert_after' in kwargs:
             comp = self.get_component(kwargs['insert_after'])
             line_no = self.netlist.index(comp) + 1
+        elif old_line_no is not None:
+            line_no = old_line_no
         else:
             line_no = self._insert_position()
 
         self.netlist.insert(line_no, component)
+        if old_line_no is not None:  # It is replaced by the new one
+            del self.netlist[old_line_no if old_line_no < line_no else old_line_no + 1]
         if permission == UpdatePermission.Inform:
             self.end_update(component.reference, component.value_str, UpdateType.AddComponent)
 
-- 
2.43.0


From 13b12b1b5fedc03ebe26ae7842bd8a6ce254835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 027/142] fix: removing a circuit parameter that does not exist
 does not add it with the value None

---
 spicelib/editor/spice_subcircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index a2e38c5..337e228 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -648,7 +648,7 @@ class SpiceCircuit(BaseSubCircuit):
                                                                f"{value_str}") + END_LINE_TERM
                 if permission == UpdatePermission.Inform:
                     self.end_update(param, value_str, UpdateType.UpdateParameter)
-        else:
+        elif value is not None:
             # Was not found
             term = Primitive(netlist=self, obj=f'.PARAM {param}={value_str}  ; Batch instruction' + END_LINE_TERM)
             self.netlist.insert(self._insert_position(), term)
-- 
2.43.0


From cda267ebba80422f9211e422b138284bbe14f2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 028/142] fix: parameters in .PARAMS lines are found

---
 spicelib/editor/spice_file.py       | 2 +-
 spicelib/editor/spice_subcircuit.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spicelib/editor/spice_file.py b/spicelib/editor/spice_file.py
index 2f84959..12c281f 100644
--- a/spicelib/editor/spice_file.py
+++ b/spicelib/editor/spice_file.py
@@ -58,7 +58,7 @@ class SpiceFile(BaseEditor, SpiceCircuit):
                     return
                 else:
                     i += 1
-        elif cmd == '.PARAM':
+        elif cmd in ('.PARAM', '.PARAMS'):
             raise RuntimeError('The .PARAM instruction should be added using the "set_parameter" method')
 
         # check whether the instruction is already there (dummy proofing)
diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 337e228..9222dc7 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -281,7 +281,7 @@ class SpiceCircuit(BaseSubCircuit):
             elif isinstance(line, Primitive):
                 line: str = line.obj
             cmd = get_line_command(line) # pyright: ignore[reportArgumentType]
-            if cmd == '.PARAM':
+            if cmd in ('.PARAM', '.PARAMS'):
                 for match in find_parameters(line):
                     if match.group("name").upper() == param_name_upped:
                         return line_no, match, self.netlist
@@ -300,7 +300,7 @@ class SpiceCircuit(BaseSubCircuit):
             elif isinstance(line, Primitive):
                 line: str = line.obj # pyright: ignore[reportAssignmentType]
             cmd = get_line_command(line)
-            if cmd == '.PARAM':
+            if cmd in ('.PARAM', '.PARAMS'):
                 for match in find_parameters(line):
                     param_name = match.group('name')
                     param_names.append(param_name.upper())
@@ -878,7 +878,7 @@ class SpiceCircuit(BaseSubCircuit):
         cmd = get_line_command(instruction)
         if _is_unique_instruction(cmd):
             raise RuntimeError(f"Simulation directives like \"{cmd}\" can't be set on sub-circuits")
-        if cmd == '.PARAM':
+        if cmd in ('.PARAM', '.PARAMS'):
             raise RuntimeError('The .PARAM instruction should be added using the "set_parameter" method')
 
         # check whether the instruction is already there (dummy proofing)
-- 
2.43.0


From c97d55bbb3621fb7e130f4313979c385e545c7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 029/142] fix: the value of a component does not include the
 parameters or comments that follow it

---
 spicelib/editor/spice_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spicelib/editor/spice_utils.py b/spicelib/editor/spice_utils.py
index 6c94b72..459a4b2 100644
--- a/spicelib/editor/spice_utils.py
+++ b/spicelib/editor/spice_utils.py
@@ -114,14 +114,14 @@ END_LINE_TERM = '\n'  #: This controls the end of line terminator used
 # NUMBER_RGX = FLOAT_RGX + r"(Meg|[kmuµnpfgt])?[a-zA-Z]*"
 
 # Optional comment at end of line. Will consume trailing spaces and is to be used on all lines.
-COMMENT_RGX = r"(?:\s+;.*)?\\?\s*$"
+COMMENT_RGX = r"(?:\s*;.*)?\\?\s*$"
 
 # Potential model name, probably needs expanding. Will require a leading space
 MODEL_OR_VALUE_RGX = r"\s+(?P<value>[\w\.\-\{\}]+)"
 
 # the rest of the line. Cannot be used with PARAM.
 # Includes the comment regex and will expect to finish the line.
-ANY_VALUE_RGX = r"\s+(?P<value>.*)" + COMMENT_RGX
+ANY_VALUE_RGX = r"\s+(?P<value>.*?)" + COMMENT_RGX
 
 # maybe a value. Will require a leading space
 MAYBE_VALUE_RGX = r"\s+(?P<value>.*?)"
@@ -151,13 +151,13 @@ def VALUE_RGX(prefix: str, number_regex_suffix: str) -> str:
         my_prefix = "(" + prefix + "\\s?=\\s?)?"
     return "\\s+" + my_prefix + "(?P<value>(?P<number>[-+]?[0-9]*\\.?[0-9]+([eE][-+]?[0-9]+)?" + \
         number_regex_suffix + ")?(?P<formula1>\")?(?P<formula2>')?(?P<formula3>{)?" + \
-        "(?(number)|(?(formula1).*\"|(?(formula2).*'|(?(formula3).*}|\\S*)))))"
+        "(?(number)|(?(formula1)[^\"]*\"|(?(formula2)[^']*'|(?(formula3)[^}]*}|[^\\s;]*)))))"
 
 
 REPLACE_REGEXS : Dict[str, str] = {
-    'A': PREFIX_AND_NODES_RGX("A", 8, 8) + r"\s+(?P<value>.*)",  # LTspice Only : Special Functions, Parameter substitution not supported
+    'A': PREFIX_AND_NODES_RGX("A", 8, 8) + ANY_VALUE_RGX,  # LTspice Only : Special Functions, Parameter substitution not supported
     # Bxxx n001 n002 [VIRP]=<expression> [ic=<value>] ...
-    'B': PREFIX_AND_NODES_RGX("B", 2) + r"\s+(?P<value>[VIBR]\s*=(?:>=|<=|[^=])+)" + PARAM_RGX,  # Behavioral source
+    'B': PREFIX_AND_NODES_RGX("B", 2) + r"\s+(?P<value>[VIBR]\s*=(?:>=|<=|==|!=|[^=;])+)" + PARAM_RGX,  # Behavioral source
     # Cxxx n1 n2 <capacitance> [ic=<value>] ...
     # Cxxx n+ n- <value> <mname> <m=val> <scale=val> <temp=val> ...
     # Cxxx n1 n2 C=<capacitance> [ic=<value>] ...
-- 
2.43.0


From 764be43492bf1fb6adfc249311dbe5b45e521b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 030/142] fix: netlist components in lower case, indented or
 continued after a comment are read

---
 spicelib/editor/spice_components.py | 27 ++++++++++++++++++---------
 spicelib/editor/spice_subcircuit.py | 15 +++++++++++----
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/spicelib/editor/spice_components.py b/spicelib/editor/spice_components.py
index c750d92..ff310ea 100644
--- a/spicelib/editor/spice_components.py
+++ b/spicelib/editor/spice_components.py
@@ -238,6 +238,19 @@ class SpiceComponent(Component):
     #         return self._netlist.parent_reference() + self.reference
     #     return self.reference
 
+    def _single_line(self) -> str:
+        """Returns the statement in a single line, without line breaks or leading spaces. The comments of lines that are
+        continued are moved to the end."""
+        lines = re.split(r'\s*[\n\r]+\s*', (self._obj or '').strip())
+        comments = ''
+        for i in range(1, len(lines)):
+            if lines[i].startswith('+'):
+                lines[i] = lines[i][1:].lstrip()
+                if (pos := lines[i - 1].find(';')) >= 0:
+                    comments += ' ' + lines[i - 1][pos:]
+                    lines[i - 1] = lines[i - 1][:pos].rstrip()
+        return ' '.join(lines) + comments
+
     def reset_attributes(self):
         """Update attributes of a component at a specific line in the netlist
 
@@ -250,14 +263,14 @@ class SpiceComponent(Component):
         """
         if self._obj is None:
             return
-        prefix = self._obj[0]
+        new_line = self._single_line()
+        prefix = new_line[0].upper()
         regex = component_replace_regexs.get(prefix, None)
         if regex is None:
             error_msg = f"Component must start with one of these letters: {','.join(REPLACE_REGEXS.keys())}\n" \
                         f"Got {self._obj}"
             _logger.error(error_msg)
             raise NotImplementedError(error_msg)
-        new_line = re.sub(r'[\n\r]+\s*', ' ', self._obj) # cleans up line breaks and extra spaces and tabs
         match = regex.match(new_line)
         if match is None or match.span() == (0, 0):
             raise UnrecognizedSyntaxError(self._obj, regex.pattern)
@@ -290,22 +303,18 @@ class SpiceComponent(Component):
         """
         # Reconstruct the line from the attributes. This will not preserve the original formatting, by reparsing
         # again the line updating the parameters.
-        prefix = self.reference[0]
+        prefix = self.reference[0].upper()
         regex = component_replace_regexs.get(prefix, None)
         if regex is None:
             error_msg = f"Component must start with one of these letters: {','.join(REPLACE_REGEXS.keys())}\n" \
                         f"Got {self._obj}"
             _logger.error(error_msg)
             raise NotImplementedError(error_msg)
-        match = regex.match(self._obj)
+        new_line: str = self._single_line()
+        match = regex.match(new_line)
         if match is None:
             raise UnrecognizedSyntaxError(self._obj, regex.pattern)
         info = match.groupdict()
-        if self._obj is not None:
-            new_line: str = self._obj[:]  # make a copy
-        else:
-            new_line = ''
-        new_line = re.sub(r'[\n\r]+\s*', ' ', new_line)
         offset = 0
         update_done = False
         for attr in info:
diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 9222dc7..9e48fad 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -129,7 +129,10 @@ def separate_lines(stream: io.StringIO) -> Generator[str, None, None]:
             if not (braces_stack or in_quotes):
                 next_char = stream.read(1)
                 if next_char == '+':
-                    next_char = None  # line continuation, ignore the newline and the '+'
+                    # line continuation, ignore the newline and the '+'
+                    next_char = stream.read(1)
+                    if next_char and not next_char.isspace():
+                        current_line += ' '  # it still separates the two
                 elif next_char == '\n' and char=='\r' or next_char == '\r' and char=='\n':
                     # This is a Windows style line break, we need to consume the next character as well
                     # Next iteration will trigger the end of line, so we just ignore it here
@@ -198,9 +201,13 @@ class SpiceCircuit(BaseSubCircuit):
                 primitive = IncludeFile(netlist=self, obj=line)
                 self.netlist.append(primitive)
             elif cmd == '+':
-                assert len(self.netlist) > 0, "ERROR: The first line cannot be starting with a +"
-                # Concatenate the line to the previous line. Make it easy to handle: just make it 1 line. (but keep spaces etc)
-                self.netlist[-1]+=line  # Append to the last line, but remove the preceding newline and the leading '+'
+                # This only happens when the line being continued ends with a comment or is followed by comment lines.
+                for i in range(len(self.netlist) - 1, -1, -1):
+                    if isinstance(self.netlist[i], Primitive):
+                        self.netlist[i] += line  # The line break and the '+' are kept
+                        break
+                else:
+                    raise AssertionError("ERROR: The first line cannot be starting with a +")
             elif len(cmd) == 1 and cmd in VALID_PREFIXES:
                 # This is a component line
                 if cmd == 'X':
-- 
2.43.0


From 91e6372d2771d322bf1383f9a07c2d5d770e8b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 031/142] fix: netlists with components added from scratch can
 be edited further

---
 spicelib/editor/spice_subcircuit.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 9e48fad..aef73bb 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -30,7 +30,7 @@ from .spice_utils import subckt_regex, SUBCKT_CLAUSE_FIND, \
 from .primitives import ValueType, Primitive, try_value
 from .updates import UpdateType, UpdatePermission
 from .base_subcircuit import BaseSubCircuit
-from .spice_components import SpiceComponent, component_replace_regexs, _insert_section
+from .spice_components import SpiceComponent, _insert_section
 from .spice_subcircuit_instance import SpiceCircuitInstance
 from .base_editor import SUBCKT_DIVIDER, find_parameters, BaseEditor
 
@@ -70,7 +70,7 @@ def get_line_command(line: str | Primitive) -> str:
     elif isinstance(line, IncludeFile):
         return ".INCLUDE"
     elif isinstance(line, (SpiceComponent, SpiceCircuitInstance)):
-        return line.obj[0] # pyright: ignore[reportOptionalSubscript]
+        return (line.obj or line.reference).lstrip()[0].upper() # pyright: ignore[reportOptionalMemberAccess]
     elif isinstance(line, Primitive):
         return get_line_command(line.obj) # pyright: ignore[reportArgumentType]
     else:
@@ -793,6 +793,10 @@ class SpiceCircuit(BaseSubCircuit):
         permission = self.begin_update()
         if permission == UpdatePermission.Deny:
             raise ValueError("Editor is read-only")
+        if not component.obj:  # It wasn't read from a netlist
+            line = io.StringIO()
+            component.write_lines(line)
+            component._obj = line.getvalue()
         component._netlist = self  # From now on its updates are done to this netlist
         old_line_no = None
         for line_no, line in enumerate(self.netlist):
@@ -845,15 +849,13 @@ class SpiceCircuit(BaseSubCircuit):
         circuit_nodes = []
         for line in self.netlist:
             if isinstance(line, (SpiceComponent, SpiceCircuitInstance)):
-                prefix = get_line_command(line)
-                if prefix in component_replace_regexs:
-                    regex = component_replace_regexs[prefix]
-                    match = regex.match(line.obj) # pyright: ignore[reportAssignmentType]
-                    if match:
-                        nodes = match.group('nodes').split()  # This separates by all space characters including \t
-                        for node in nodes:
-                            if node not in circuit_nodes:
-                                circuit_nodes.append(node)
+                try:
+                    nodes = line.port_list()
+                except (NotImplementedError, UnrecognizedSyntaxError):
+                    continue
+                for node in nodes:
+                    if node not in circuit_nodes:
+                        circuit_nodes.append(node)
         return circuit_nodes
 
     def save_netlist(self, run_netlist_file: str | Path | io.StringIO) -> None:
-- 
2.43.0


From ec88cf5733f61a27d12cbad7863e107f20eb3e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 032/142] fix: editing a component parameter keeps the model
 names, areas and flags of the same line

---
 spicelib/editor/spice_components.py | 224 ++++++++++++++--------------
 1 file changed, 113 insertions(+), 111 deletions(-)

diff --git a/spicelib/editor/spice_components.py b/spicelib/editor/spice_components.py
index ff310ea..f98ea35 100644
--- a/spicelib/editor/spice_components.py
+++ b/spicelib/editor/spice_components.py
@@ -78,79 +78,80 @@ for prefix, pattern in REPLACE_REGEXS.items():
 # continuations and comments correctly when parsing and writing back to the netlist.
 
 
-def tokenize_params(params_str: str) -> list[str]:
-    """Split by spaces and special operators (= and ,) but keep the operators as part of the tokens
-    Everything insider {} or "" or '' will be considered as part of the same token, so that parameters like
-    "key={value with spaces and commas}" are correctly parsed as a single token."""
+def _scan_tokens(params_str: str) -> list[tuple[str, int, int]]:
+    """Same as tokenize_params, but gives for each token also the positions where it starts and stops."""
     in_quotes = None  # To keep track of which quote we are in, if any
     in_func_decl = False  # Inside {}
     tokens = []
-    current_token = ""
-
-    for char in params_str:
-        # Use structural pattern matching for clearer branching and guards
-        match char:
-            case '"' | "'":
-                if in_quotes is None:
-                    in_quotes = char
-                elif in_quotes == char:
-                    in_quotes = None
-                current_token += char
-            case '{':
-                in_func_decl = True
-                current_token += char
-            case '}':
-                in_func_decl = False
-                current_token += char
-            case c if c in (',', '=') and in_quotes is None and not in_func_decl:
-                if current_token:
-                    tokens.append(current_token.strip())
-                    tokens.append(c)
-                    current_token = ""
-            case c if c.isspace() and in_quotes is None and not in_func_decl:
-                if current_token:
-                    tokens.append(current_token.strip())
-                    current_token = ""
-            case _:
-                current_token += char
-
-    if current_token:
-        tokens.append(current_token.strip())
+    start = None  # where the current token started
+
+    for i, char in enumerate(params_str):
+        is_quoted = in_quotes is not None or in_func_decl
+        if not is_quoted and (char.isspace() or char in (',', '=')):
+            if start is not None:
+                tokens.append((params_str[start:i], start, i))
+                start = None
+            if char in (',', '='):
+                tokens.append((char, i, i + 1))
+            continue
+        if start is None:
+            start = i
+        if char in ('"', "'"):
+            if in_quotes is None:
+                in_quotes = char
+            elif in_quotes == char:
+                in_quotes = None
+        elif char == '{':
+            in_func_decl = True
+        elif char == '}':
+            in_func_decl = False
+
+    if start is not None:
+        token = params_str[start:].rstrip()
+        tokens.append((token, start, start + len(token)))
     return tokens
 
 
+def tokenize_params(params_str: str) -> list[str]:
+    """Split by spaces and special operators (= and ,) but keep the operators as part of the tokens
+    Everything insider {} or "" or '' will be considered as part of the same token, so that parameters like
+    "key={value with spaces and commas}" are correctly parsed as a single token."""
+    return [token for token, _, _ in _scan_tokens(params_str)]
+
+
 def undress_designator(designator: str) -> str:
     """Removes any odd characters from the designator, such as §, which is sometimes used in the netlist but not always present. This is needed to compare the designator with the reference of the component, which does not contain these odd characters."""
     if len(designator) > 2 and designator[1] == '§':
         return designator[0] + designator[2:]
     return designator.upper()
 
-def _parse_params(params_str: str) -> dict:
+def _scan_params(params_str: str) -> tuple[dict, dict]:
     """
     Parses the parameters string and returns a dictionary with the parameters.
     The parameters, which can be in the form of "key=value", but the value
-    can contain spaces and commas, such as "key=value1, value2". Also handle type qualifiers such
-    as "type key=value" where the types are the verilog defined types as defined in VERILOG_TYPES.
+    can contain spaces and commas, such as "key=value1, value2". Tokens that are not part of a "key=value" pair, such as
+    the type qualifiers in "type key=value", model names or the area of a diode, are not parameters. The exception are
+    the flags defined in SPICE_KEYWORDS, that have the value True.
 
     :param params_str: input
     :type params_str: str
     :raises ValueError: invalid format
-    :return: dict with parameters
-    :rtype: dict
+    :return: dict with parameters, dict with the position of each parameter in the string as (start, stop)
+    :rtype: tuple[dict, dict]
     """
     params = OrderedDict()
+    spans = {}
 
     # Now we have a list of tokens, we can parse them into key-value pairs
-    tokens = tokenize_params(params_str)
+    tokens = _scan_tokens(params_str)
     if not tokens:
-        return params  # empty parameters because there were no tokens
+        return params, spans  # empty parameters because there were no tokens
 
     key = None # current key being parsed, we expect the next token to be its value
     last_key = None  # last key parsed, we expect the next token to be a comma if we are parsing a list of values for the same key
-    # var_type = None # if the current token is a type qualifier, we store it here and apply it to the next key we find
     is_list = False  #
 
-    for token in tokens:
+    for i, (token, start, stop) in enumerate(tokens):
         if token == '=':
             if key is None:
                 raise ValueError(f"Unexpected '=' without a key before it in parameters string: {params_str}")
@@ -170,33 +171,61 @@ def _parse_params(params_str: str) -> dict:
                     params[last_key].append(value)
                 else:
                     params[last_key] = [params[last_key], value]
+                spans[last_key] = (spans[last_key][0], stop)
                 is_list = False
-            elif key is None:
-                if token in SPICE_KEYWORDS:
-                    # if the token is a keyword, we consider it as a key with value True
-                    params[token] = True
-                elif token in VERILOG_TYPES:
-                    # if the token is a verilog type, we consider it as a type qualifier for the next key
-                    var_type = token
-                elif isinstance(value, float | int) and last_key in params:
-                    # if the token can be converted to a value, we consider it as a list of values for the last key
-                    if isinstance(params[last_key], str):
-                        params[last_key] += f" {token}"
-                    else:
-                        params[last_key] = f"{params[last_key]} {token}"
-                else:
-                    key = token
-            else:
-                # if var_type:
-                #    # if there is a type qualifier, we prepend it to the key
-                #    params[key] = (value, var_type)
-                #    var_type = None
-                # else:
+            elif key is not None:
                 params[key] = value
+                spans[key] = (key_start, stop)
                 last_key = key
                 key = None
+            elif i + 1 < len(tokens) and tokens[i + 1][0] == '=':
+                key = token
+                key_start = start
+            elif token in SPICE_KEYWORDS:
+                # if the token is a keyword, we consider it as a key with value True
+                params[token] = True
+                spans[token] = (start, stop)
+            elif isinstance(value, float | int) and last_key in params:
+                # if the token can be converted to a value, we consider it as a list of values for the last key
+                if isinstance(params[last_key], str):
+                    params[last_key] += f" {token}"
+                else:
+                    params[last_key] = f"{params[last_key]} {token}"
+                spans[last_key] = (spans[last_key][0], stop)
+
+    return params, spans
+
+
+def _parse_params(params_str: str) -> dict:
+    """Returns a dictionary with the parameters found in the parameters string. See _scan_params()"""
+    return _scan_params(params_str)[0]
+
+
+def _format_param(key: str, value) -> str:
+    """Returns the text of a parameter in a component line"""
+    if isinstance(value, list):
+        value = ','.join(str(v) for v in value)
+    return f"{key}={value}"
+
+
+def _update_params(params_str: str, new_params: dict) -> str:
+    """Returns the parameters string updated with the new parameters. What isn't a parameter is kept as it is."""
+    old_params, spans = _scan_params(params_str)
+    if new_params == old_params:
+        return params_str
+    sections = []
+    last = 0
+    for key, (start, stop) in sorted(spans.items(), key=lambda item: item[1]):
+        sections.append(params_str[last:start].strip())
+        if new_params.get(key) is not None:
+            sections.append(_format_param(key, new_params[key]))
+        last = stop
+    sections.append(params_str[last:].strip())
+    for key, value in new_params.items():
+        if key not in spans and value is not None:
+            sections.append(_format_param(key, value))
+    return ' '.join(section for section in sections if section)
 
-    return params
 
 def _insert_section(line: str, start: int, end: int, section: str) -> str:
     """
@@ -315,8 +344,7 @@ class SpiceComponent(Component):
         if match is None:
             raise UnrecognizedSyntaxError(self._obj, regex.pattern)
         info = match.groupdict()
-        offset = 0
-        update_done = False
+        sections = []  # The sections of the line that need to change
         for attr in info:
             start, stop = match.span(attr)
             if start == -1 and stop == -1 and attr not in self._attributes:
@@ -328,53 +356,21 @@ class SpiceComponent(Component):
                         new_ref = self.reference[0] + '§' + self.reference[1:]
                     else:
                         new_ref = self.reference
-                    new_line = _insert_section(new_line, start + offset, stop + offset, new_ref)
-                    offset += len(new_ref) - len(old_ref)
-                    update_done = True
+                    sections.append((start, stop, new_ref))
             elif attr == 'nodes':
                 old_nodes_str = info[attr]
                 new_nodes_str = ' ' + self.port_names(' ')
                 if old_nodes_str != new_nodes_str:
-                    new_line = _insert_section(new_line, start + offset, stop + offset, new_nodes_str)
-                    offset += len(new_nodes_str) - len(old_nodes_str)
-                    update_done = True
+                    sections.append((start, stop, new_nodes_str))
             elif attr == 'params':
                 old_params_str = info[attr] or ""  # in case of no params, make it empty string
-                old_params = _parse_params(old_params_str)
-                # Now compare the old params with the new params, if they are different, we need to update the line
-                differences = False
-                for key in self.params:
-                    if key not in old_params:
-                        differences = True
-                        break
-                    if self.params[key] != old_params[key]:
-                        differences = True
-                        break
-                else:
-                    for key in old_params:
-                        if key not in self.params:
-                            differences = True
-                            break
-                if differences:
-                    new_params = []
-                    for key, value in self.params.items():
-                        if isinstance(value, list):
-                            value_str = ','.join(str(v) for v in value)
-                        else:
-                            value_str = str(value)
-                        new_params.append(f"{key}={value_str}")
-                    new_params_str = ' '.join(new_params)
+                new_params_str = _update_params(old_params_str, self.params)
+                if new_params_str != old_params_str:
                     if start == -1 and stop == -1:
-                        # params were not present in the original line, we need to add them at the end, or just before the comment if there is one
-                        comment_index = new_line.find(';')
-                        if comment_index != -1:
-                            new_line = new_line[:comment_index].rstrip() + ' ' + new_params_str + ' ' + new_line[comment_index:]
-                        else:
-                            new_line += ' ' + new_params_str
-                    else:
-                        new_line = _insert_section(new_line, start + offset, stop + offset, new_params_str)
-                    offset += len(new_params_str) - len(old_params_str)
-                    update_done = True
+                        # params were not present in the original line, we need to add them at the end, or just before
+                        # the comment if there is one
+                        start = stop = len(new_line[:match.end()].partition(';')[0].rstrip())
+                    sections.append((start, stop, new_params_str))
             else:
                 if hasattr(self, attr):
                     old_attr_value = info[attr]
@@ -382,11 +378,17 @@ class SpiceComponent(Component):
                     if isinstance(new_attr_value, (float, int)):
                         new_attr_value = format_eng(new_attr_value)
                     if old_attr_value != new_attr_value:
-                        new_line = _insert_section(new_line, start + offset, stop + offset, new_attr_value)
-                        offset += len(new_attr_value) - len(old_attr_value)
-                        update_done = True
+                        sections.append((start, stop, new_attr_value))
                 else:
                     pass  # attribute not present, do nothing
+        # The sections are changed from the end to the beginning, so that the positions are kept valid
+        update_done = False
+        for start, stop, section in sorted(sections, reverse=True):
+            if section.strip() or start == -1:
+                new_line = _insert_section(new_line, start, stop, section)
+            else:  # All the parameters were removed
+                new_line = f"{new_line[:start].rstrip()} {new_line[stop:].lstrip()}".rstrip()
+            update_done = True
         if not update_done:
             # nothing changed, write original line
             new_line = self.obj or ""
-- 
2.43.0


From 954a5e62e508eccb10933af0dc1d8e3063c60664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 033/142] fix: set_component_parameters(reference, value=...)
 sets the value of the component, as documented

---
 spicelib/editor/spice_components.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spicelib/editor/spice_components.py b/spicelib/editor/spice_components.py
index f98ea35..ddc011e 100644
--- a/spicelib/editor/spice_components.py
+++ b/spicelib/editor/spice_components.py
@@ -455,6 +455,9 @@ class SpiceComponent(Component):
 
     def set_parameter(self, key: str, value):
         """Informs the netlist that a parameter of the component has changed"""
+        if key.upper() == 'VALUE' and value is not None and key not in self.params:
+            self.set_value(value)
+            return
         perm = SpiceComponent.begin_update(self)
         if perm == UpdatePermission.Deny:
             raise PermissionError("Updates are currently not allowed")
-- 
2.43.0


From 63f346228a340a5d9d4fb81355dedc8d1aecd891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 034/142] fix: quoted file names in .include and .lib
 statements are found

---
 spicelib/editor/spice_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_utils.py b/spicelib/editor/spice_utils.py
index 459a4b2..5d2b96c 100644
--- a/spicelib/editor/spice_utils.py
+++ b/spicelib/editor/spice_utils.py
@@ -56,7 +56,7 @@ SPICE_DOT_INSTRUCTIONS = (
 SUBCKT_CLAUSE_FIND = r"^.SUBCKT\s+"
 subckt_regex = re.compile(r"^.SUBCKT\s+(?P<name>[\w\.]+)", re.IGNORECASE)
 lib_inc_regex = re.compile(
-    r"^\.(LIB|INC(LUDE)?)\s+(?P<filename>.+?)\s*(?:[;*].*)?$",
+    r"^\.(LIB|INC(LUDE)?)\s+(?P<quote>[\"'])?(?P<filename>(?(quote)[^\"']+|.+?))(?(quote)(?P=quote).*|\s*(?:[;*].*)?)$",
     re.IGNORECASE
 )
 
-- 
2.43.0


From bfe587287404cfb1235c6bcf66ebd8e2e5c739d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:06 +0000
Subject: [PATCH 035/142] fix: the last line of an included file is not joined
 with the statement that follows

---
 spicelib/editor/spice_subcircuit.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index aef73bb..c592114 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -237,7 +237,12 @@ class SpiceCircuit(BaseSubCircuit):
                     raise RuntimeError(
                         f"Cannot write unresolved include file: {primitive.obj!r}"
                     )
-                primitive.editor.write_lines(stream)
+                content = io.StringIO()
+                primitive.editor.write_lines(content)
+                text = content.getvalue()
+                stream.write(text)
+                if text and not text.endswith(END_LINE_TERM):  # The last line of a file may have no line break
+                    stream.write(END_LINE_TERM)
             elif isinstance(primitive, (SpiceComponent, SpiceCircuit, ControlEditor)):
                 primitive.write_lines(stream)
             elif isinstance(primitive, Primitive):
-- 
2.43.0


From 7f3d33113dfd6c672e47dca6c0598a736da5243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 036/142] =?UTF-8?q?fix:=20references=20written=20with=20th?=
 =?UTF-8?q?e=20=C2=A7=20character=20are=20also=20found=20in=20lower=20case?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 spicelib/editor/spice_components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_components.py b/spicelib/editor/spice_components.py
index ddc011e..7ffaabb 100644
--- a/spicelib/editor/spice_components.py
+++ b/spicelib/editor/spice_components.py
@@ -122,7 +122,7 @@ def tokenize_params(params_str: str) -> list[str]:
 def undress_designator(designator: str) -> str:
     """Removes any odd characters from the designator, such as §, which is sometimes used in the netlist but not always present. This is needed to compare the designator with the reference of the component, which does not contain these odd characters."""
     if len(designator) > 2 and designator[1] == '§':
-        return designator[0] + designator[2:]
+        designator = designator[0] + designator[2:]
     return designator.upper()
 
 def _scan_params(params_str: str) -> tuple[dict, dict]:
-- 
2.43.0


From c91f1c85f7b4d1f8f92f252b7fe5b3f22de95c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:53 +0000
Subject: [PATCH 037/142] fix: RawWrite stores the samples in the type and
 order that the header announces

---
 spicelib/raw/raw_write.py | 42 +++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/spicelib/raw/raw_write.py b/spicelib/raw/raw_write.py
index 3b14e7a..0dae40c 100644
--- a/spicelib/raw/raw_write.py
+++ b/spicelib/raw/raw_write.py
@@ -28,7 +28,7 @@ from time import strftime
 
 from .raw_read import RawRead
 from .raw_classes import DataSet
-from numpy import array, float32, zeros
+from numpy import array, complex128, float32, float64, zeros
 
 
 class Trace(DataSet):
@@ -118,7 +118,8 @@ class RawWrite:
                 self.plot_name = self.plot_name or 'Transient Analysis'
                 flag_numtype = 'real'
             elif trace.whattype == 'frequency':
-                if (trace.numerical_type != 'complex' and self.flag_numtype != 'complex') or 'Noise' in self.plot_name:
+                if (trace.numerical_type != 'complex' and self.flag_numtype != 'complex') or \
+                        'Noise' in (self.plot_name or ''):
                     self.plot_name = self.plot_name or 'Noise Spectral Density - (V/Hz½ or A/Hz½)'
                     flag_numtype = 'real'
                 else:
@@ -140,6 +141,17 @@ class RawWrite:
                 raise IndexError("The trace needs to be the same size as trace 0")
         self._traces.append(trace)
 
+    def _storage_dtypes(self) -> list:
+        """Type in which each trace is stored. It has to be the one that the header of the file announces: complex for
+        all the traces, double for all the traces, or single precision for all but the first one."""
+        if self.flag_numtype == 'complex' or (self.plot_name or '').lower() == 'ac analysis':
+            return [complex128] * len(self._traces)
+        if any(trace.numerical_type == 'complex' for trace in self._traces):
+            raise ValueError(f"A file of type '{self.flag_numtype}' can't store complex traces")
+        if self.flag_numtype == 'double' or any(trace.numerical_type == 'double' for trace in self._traces[1:]):
+            return [float64] * len(self._traces)
+        return [float64] + [float32] * (len(self._traces) - 1)
+
     def save(self, filename: Path | str):
         """
         Saves the RAW file into a file. The file format is always binary. Text based RAW output format is not supported
@@ -150,11 +162,16 @@ class RawWrite:
         """
         if len(self._imported_data):
             self._consolidate()
+        dtypes = self._storage_dtypes()
+        columns = [array(trace.data, dtype=dtype) for trace, dtype in zip(self._traces, dtypes)]
+        flags = self._str_flags()
+        if dtypes[-1] == float64 and len(dtypes) > 1 and 'double' not in flags:
+            flags += ' double'
         f = open(filename, 'wb')
         f.write("Title: * spicelib RawWrite\n".encode(self.encoding))
         f.write(f"Date: {strftime('%a %b %d %H:%M:%S %Y')}\n".encode(self.encoding))
         f.write(f"Plotname: {self.plot_name}\n".encode(self.encoding))
-        f.write(f"Flags: {self._str_flags()}\n".encode(self.encoding))
+        f.write(f"Flags: {flags}\n".encode(self.encoding))
         f.write(f"No. Variables: {len(self._traces)}\n".encode(self.encoding))
         f.write(f"No. Points: {len(self._traces[0]):12}\n".encode(self.encoding))
         f.write(f"Offset:   {self.offset:.16e}\n".encode(self.encoding))
@@ -163,17 +180,14 @@ class RawWrite:
         f.write("Variables:\n".encode(self.encoding))
         for i, trace in enumerate(self._traces):
             f.write(f"\t{i}\t{trace.name}\t{trace.whattype}\n".encode(self.encoding))
-        total_bytes = 0
         f.write("Binary:\n".encode(self.encoding))
-        if self.flag_fastaccess and self.flag_numtype != 'complex':  # Don't know why, but complex RAW files aren't
-            # converted to FastAccess
-            for trace in self._traces:
-                f.write(trace.data.tobytes())
+        if self.flag_fastaccess:
+            for data in columns:
+                f.write(data.tobytes())
         else:
-            fmts = {trace: tobytes_for_trace(trace) for trace in self._traces}
             for i in range(len(self._traces[0])):
-                for trace in self._traces:
-                    total_bytes += f.write(fmts[trace](trace.data[i]))
+                for data in columns:
+                    f.write(data[i].tobytes())
         f.close()
 
     @staticmethod
@@ -369,9 +383,3 @@ class RawWrite:
     def __getitem__(self, item):
         """Helper function to access traces by using the [ ] operator."""
         return self.get_trace(item)
-
-
-def tobytes_for_trace(trace: Trace):
-    def tobytes(value):
-        return value.tobytes()
-    return tobytes
-- 
2.43.0


From 1ace1a814c70296cdb506c2af5eced486f4efdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:16 +0000
Subject: [PATCH 038/142] fix: the header of a RAW file is decoded line by
 line, keeping non-ASCII characters in UTF-8 files

---
 spicelib/raw/plot_data.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index df53880..40a6b4e 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -161,26 +161,28 @@ class PlotData(PlotInterface):
 
         # Read the header section of the RAW file
 
-        line = ""
+        newline = '\n'.encode(self._encoding)
+        raw_line = b""
         while True:
-            ch = raw_file.read(sz_enc).decode(encoding=self._encoding, errors='replace')
+            ch = raw_file.read(sz_enc)
             if len(ch) == 0:
                 # End of file reached
                 if self._verbose:
                     _logger.warning(f"Plot nr. {self._plot_nr}: End of file reached while reading the header.")
                 # will raise an exception later
                 break
-            if ch == '\n':
-                # read one line. must remove the \r
+            if ch == newline:
+                # read one line, decoding it as a whole, since a character can take more than one byte.
+                # must remove the \r
                 # if self._encoding == 'utf_8':  # no idea why utf_16_le would not need that, but this 'if' was here
-                line = line.rstrip('\r')
+                line = raw_line.decode(encoding=self._encoding, errors='replace').rstrip('\r')
                 self.header.append(line)
                 if line.lower() in ('binary:', 'values:'):
                     self._raw_type = line.lower()
                     break
-                line = ""
+                raw_line = b""
             else:
-                line += ch
+                raw_line += ch
         self._fpos_data = raw_file.tell()  # File position of the data section, used to skip the header when reading the data.
         _logger.debug(f"Plot nr {self._plot_nr}: Finished reading header.")
 
-- 
2.43.0


From b068b9304f014b4b5fb6edc5df917a9a45826cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 039/142] fix: ASCII RAW files: stepped data, UTF-16 text,
 plots following each other, and values cut short

---
 spicelib/raw/plot_data.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 40a6b4e..2814aa5 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -358,8 +358,6 @@ class PlotData(PlotInterface):
                 # This is the axis trace
                 self._axis = Axis(trace_info.name, trace_info.var_type, self._nPoints,
                                   inv_dtype_map[trace_info.dtype], trace_data)
-                if self._steps is not None:
-                    self._axis.set_steps(self._steps)
                 self._read_traces[trace_info.name] = self._axis
             else:
                 # Create trace object
@@ -372,8 +370,8 @@ class PlotData(PlotInterface):
         for point in range(self._nPoints):
             var_index = 0
             while var_index < len(self._trace_info):
-                line = raw_file.readline().decode(encoding=self._encoding, errors='ignore')
-                if len(line) == 0:
+                line = self._read_text_line(raw_file)
+                if not line.endswith('\n'):  # a value can only be trusted if its line is complete
                     raise SpiceReadException(
                         f"Invalid RAW file. Plot nr. {self._plot_nr}: Invalid data: end of file encountered too early")
                 line = line.strip()
@@ -398,17 +396,27 @@ class PlotData(PlotInterface):
                 else:
                     self._read_traces[var.name].data[point] = float(value)
                 var_index += 1
+        if self._axis is not None and self._steps is not None:
+            self._axis.set_steps(self._steps)
         # Remaining empty lines if exist are ignored
         while True:
             cursor = raw_file.tell()
-            line = raw_file.readline().strip()
-            if len(line) != 0:
+            line = self._read_text_line(raw_file)
+            if len(line.strip()) != 0:
                 raw_file.seek(cursor)  # go back to the beginning of the line
-            else:
+                break
+            if len(line) == 0:
                 break
         if self._verbose:
             _logger.debug(f"Plot nr {self._plot_nr}: ASCII data read successfully.")
 
+    def _read_text_line(self, raw_file) -> str:
+        """Reads one line of text, including the line terminator if there is one."""
+        line = raw_file.readline()
+        if self._encoding == 'utf_16_le' and line.endswith(b'\n'):
+            line += raw_file.read(1)  # second byte of the line terminator
+        return line.decode(encoding=self._encoding, errors='ignore')
+
     @property
     def has_data(self) -> bool:
         """Indicates if the plot has data."""
-- 
2.43.0


From eaca40437e24691c8199c7b76fce9213dd891a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:48 +0000
Subject: [PATCH 040/142] fix: reading the axis of a RAW file again doesn't
 replace it by a common trace

---
 spicelib/raw/plot_data.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 2814aa5..f7be3ad 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -593,6 +593,10 @@ class PlotData(PlotInterface):
             raise RuntimeError(f'Error computing alias "{alias}" with formula "{formula}"') from err
         return trace
 
+    def _is_read_axis(self, trace_info: TraceInfo) -> bool:
+        """Indicates if the trace is the axis, which was already read and is not read again."""
+        return self._axis is not None and trace_info is self._trace_info[0]
+
     @staticmethod
     def _read_bytes_from_file(raw_file: io.BufferedReader, num_bytes: int) -> bytes:
         """Reads a specific number of bytes from a file.
@@ -647,7 +651,7 @@ class PlotData(PlotInterface):
 
                     for trace_info in self._trace_info[start_index:]:
                         data_size = np.dtype(trace_info.dtype).itemsize * self._nPoints
-                        if trace_info.name in list_of_traces:
+                        if trace_info.name in list_of_traces and not self._is_read_axis(trace_info):
                             # read this trace
                             raw_file.seek(self._fpos_data + previous_data_size)  # Move to the beginning of the data section
                             raw_data = self._read_bytes_from_file(raw_file, data_size)
@@ -698,7 +702,7 @@ class PlotData(PlotInterface):
                             # Set the steps if they exist
                             if self._steps is not None:
                                 self._axis.set_steps(self._steps)
-                        elif trace_info.name in list_of_traces:
+                        elif trace_info.name in list_of_traces and not self._is_read_axis(trace_info):
                             trace_data = data[trace_info.name]
                             num_type = inv_dtype_map[trace_info.dtype]
                             # Now create the trace
-- 
2.43.0


From 9d3bdd153c8a14d91ad115139607416b8b35e0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 041/142] fix: the axis, the length and the exports of a RAW
 file don't depend on what was read before

---
 spicelib/raw/plot_data.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index f7be3ad..641bd2b 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -477,7 +477,7 @@ class PlotData(PlotInterface):
 
         The axis of the RAW file, if it exists.
         """
-        return self._axis
+        return self._get_axis()
 
     @property
     def raw_params(self) -> OrderedDict:
@@ -799,13 +799,18 @@ class PlotData(PlotInterface):
         :raises RuntimeError: if the RAW file does not have an axis.
         :return: Array with the X axis
         """
-        if self._axis:
-            axis = self.get_trace(0)
-            assert isinstance(axis, Axis), "This RAW file does not have an axis."
+        axis = self._get_axis()
+        if axis is not None:
             return axis.get_wave(step)
         else:
             raise RuntimeError("This RAW file does not have an axis.")
 
+    def _get_axis(self) -> Axis | None:
+        """Returns the axis, reading it from the file if it was not read before. None if the plot doesn't have one."""
+        if self._axis is None and self._has_axis and self.has_data:
+            self.read_trace_data([])  # The axis is always read
+        return self._axis
+
     def get_len(self, step: int = 0) -> int:
         """
         Returns the length of the data at the give step index.
@@ -813,13 +818,13 @@ class PlotData(PlotInterface):
         :param step: the step index, defaults to 0
         :return: The number of data points
         """
-        if self._axis is None:
+        axis = self._get_axis()
+        if axis is None:
             # If there is no axis, the length is the number of points
             return self._nPoints
         else:
             # If there is an axis, the length is the length of the axis at the given step
-            assert isinstance(self._axis, Axis), "This RAW file does not have an axis."
-            return self._axis.get_len(step)
+            return axis.get_len(step)
 
     def _load_step_information(self, filename: Path):
         if 'Command' not in self._raw_params:
@@ -952,8 +957,10 @@ class PlotData(PlotInterface):
         if columns is None:
             columns = self.get_trace_names()  # if no columns are given, use all traces
         else:
-            if self._axis and self._axis.name not in columns:  # If axis is not in the list, add it
-                columns.insert(0, self._axis.name)
+            columns = list(columns)  # The list given by the user is not changed
+            axis = self._get_axis()
+            if axis is not None and axis.name not in columns:  # If axis is not in the list, add it
+                columns.insert(0, axis.name)
 
         if isinstance(step, list):
             steps_to_read = step  # If a list of steps is given, use it
-- 
2.43.0


From 2caf887b1ed313b135d95f55c75876d72cec90bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:04 +0000
Subject: [PATCH 042/142] fix: stepped RAW files are read without their log
 file, and an axis whose steps are wrong is not kept

---
 spicelib/raw/plot_data.py   | 28 +++++++++++++++-------------
 spicelib/raw/raw_classes.py | 15 ++++++---------
 2 files changed, 21 insertions(+), 22 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 641bd2b..4f81d13 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -314,6 +314,7 @@ class PlotData(PlotInterface):
         self._raw_params["Variables"] = [var.name for var in self._trace_info]
 
         # Finally, Check for Step Information
+        count_steps = False  # When there is no information about the steps, they are counted on the axis
         if "stepped" in self._raw_params["Flags"].lower():
             if self._verbose:
                 _logger.debug(f"Plot nr. {self._plot_nr}: RAW file has stepped data.")
@@ -322,14 +323,9 @@ class PlotData(PlotInterface):
             except SpiceReadException as err:
                 _logger.warning(f"Plot nr. {self._plot_nr}: {str(err)}\nError in auto-detecting steps in '{raw_filename}'")
                 if self._has_axis:
-                    number_of_steps = 0
-                    if self._axis is not None:
-                        for v in self._axis.data:
-                            if v == self._axis.data[0]:
-                                number_of_steps += 1
+                    count_steps = True
                 else:
-                    number_of_steps = self._nPoints
-                self._steps = [{'run': i + 1} for i in range(number_of_steps)]
+                    self._steps = [{'run': i + 1} for i in range(self._nPoints)]
 
         if self._verbose:
             _logger.info(f"Plot nr. {self._plot_nr}: Plot read successfully.")
@@ -344,6 +340,12 @@ class PlotData(PlotInterface):
                 _logger.debug(f"Plot nr. {self._plot_nr}: ASCII RAW File")
             self._read_ascii_vector(raw_file)
 
+        if count_steps:
+            axis = self._get_axis()
+            number_of_steps = sum(1 for v in axis.data if v == axis.data[0])
+            self._steps = [{'run': i + 1} for i in range(number_of_steps)]
+            axis.set_steps(self._steps)
+
     def _read_ascii_vector(self, raw_file):
         # Create the traces read vector
         for trace_info in self._trace_info:
@@ -641,13 +643,13 @@ class PlotData(PlotInterface):
                         # Now create the axis
                         num_type = inv_dtype_map[trace_info.dtype]
                         trace = Axis(trace_info.name, trace_info.var_type, self._nPoints, num_type, data)
+                        # Set the steps if they exist
+                        if self._steps is not None:
+                            trace.set_steps(self._steps)
                         self._axis = trace
                         self._read_traces[trace_info.name] = trace
                         if self._verbose:
                             _logger.debug(f"Axis '{trace.name}' read successfully. Data type: {trace_info.dtype}, First 5 values: {trace.data[:5]}")
-                        # Set the steps if they exist
-                        if self._steps is not None:
-                            self._axis.set_steps(self._steps)
 
                     for trace_info in self._trace_info[start_index:]:
                         data_size = np.dtype(trace_info.dtype).itemsize * self._nPoints
@@ -695,13 +697,13 @@ class PlotData(PlotInterface):
                             trace_data = data[trace_info.name]
                             num_type = inv_dtype_map[trace_info.dtype]
                             trace = Axis(trace_info.name, trace_info.var_type, self._nPoints, num_type, trace_data)
+                            # Set the steps if they exist
+                            if self._steps is not None:
+                                trace.set_steps(self._steps)
                             self._axis = trace
                             self._read_traces[trace_info.name] = trace
                             if self._verbose:
                                 _logger.debug(f"Axis '{trace.name}' read successfully. Data type: {trace_info.dtype}, First 5 values: {trace.data[:5]}")
-                            # Set the steps if they exist
-                            if self._steps is not None:
-                                self._axis.set_steps(self._steps)
                         elif trace_info.name in list_of_traces and not self._is_read_axis(trace_info):
                             trace_data = data[trace_info.name]
                             num_type = inv_dtype_map[trace_info.dtype]
diff --git a/spicelib/raw/raw_classes.py b/spicelib/raw/raw_classes.py
index e070da0..a55f504 100644
--- a/spicelib/raw/raw_classes.py
+++ b/spicelib/raw/raw_classes.py
@@ -95,22 +95,19 @@ class Axis(DataSet):
         self.step_offsets = None
 
     def set_steps(self, step_info: list[dict]):
-        self.step_info = step_info
-        self.step_offsets = [None for _ in range(len(step_info))]
-
         # Now going to calculate the point offset for each step
-        self.step_offsets[0] = 0
+        step_offsets = [0]
         i = 1
-        k = 1
         while i < len(self.data):
             if self.data[i] == self.data[0]:
-                self.step_offsets[k] = i
-                k += 1
+                step_offsets.append(i)
             i += 1
 
-        if k != len(self.step_info):
+        if len(step_offsets) != len(step_info):
             raise SpiceReadException("The file a different number of steps than expected.\n" +
-                                     "Expecting %d got %d" % (len(self.step_offsets), k))
+                                     "Expecting %d got %d" % (len(step_info), len(step_offsets)))
+        self.step_info = step_info
+        self.step_offsets = step_offsets
 
     def step_offset(self, step: int) -> int:
         """
-- 
2.43.0


From 3acfd87de9e9a3c844557b75dfac4a2d8f37fb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:04 +0000
Subject: [PATCH 043/142] fix: points, lengths and positions of a step don't
 reach into the other steps of the RAW file

---
 spicelib/raw/raw_classes.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/spicelib/raw/raw_classes.py b/spicelib/raw/raw_classes.py
index a55f504..392fb0b 100644
--- a/spicelib/raw/raw_classes.py
+++ b/spicelib/raw/raw_classes.py
@@ -171,7 +171,8 @@ class Axis(DataSet):
         :param step: step index, defaults to 0
         :returns: Value of the data point
         """
-        return self.data[n + self.step_offset(step)]
+        value = self.data[self.step_offset(step):self.step_offset(step + 1)][n]
+        return np.abs(value) if self.name == 'time' else value
 
     def __getitem__(self, item) -> float | complex:
         """This is only here for compatibility with previous code. """
@@ -194,15 +195,19 @@ class Axis(DataSet):
             timex = self.get_time_axis(step)
         else:
             timex = self.get_wave(step)
+        timex = np.real(timex)  # In AC analysis, the frequency can be stored as a complex
+        t = np.real(t)
+        descending = len(timex) > 1 and timex[-1] < timex[0]
         for i, x in enumerate(timex):
             if x == t:
                 return i
-            elif x > t:
+            elif (x < t) if descending else (x > t):
                 # Needs to interpolate the data
                 if i == 0:
-                    raise IndexError("Time position is lower than t0")
+                    raise IndexError("The position is before the first point of the axis")
                 frac = (t - timex[i - 1]) / (timex[i] - timex[i - 1])
                 return i - 1 + frac
+        raise IndexError("The position is after the last point of the axis")
 
     def get_len(self, step: int = 0) -> int:
         """
@@ -250,7 +255,7 @@ class TraceRead(DataSet):
             else:
                 return self.data[step]  # This is for the case of stepped operation point simulation.
         else:
-            return self.data[self.axis.step_offset(step) + n]
+            return self.get_wave(step)[n]
 
     def __getitem__(self, item) -> float | complex:
         """This is only here for compatibility with previous code. """
@@ -309,7 +314,9 @@ class TraceRead(DataSet):
         :param step: Optional parameter the step index.
         :return: The number of data points
         """
-        return self.axis.step_offset(step + 1)
+        if self.axis is None:
+            return len(self.data)
+        return self.axis.get_len(step)
 
     def __len__(self):
         """
-- 
2.43.0


From 9d29fc4b63e9ce9479db93a82ee0694fa651d381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:45 +0000
Subject: [PATCH 044/142] fix: aliases of QSPICE waveforms are read step by
 step, and the frequency aliases are read at all

---
 spicelib/raw/plot_data.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 4f81d13..7de3156 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -204,7 +204,7 @@ class PlotData(PlotInterface):
                     self._spice_params[k.strip()] = v.strip()
                 elif line.startswith('.alias'):
                     # This is a parameter line which format as the following pattern ".alias I(R2) (0.0001mho*V(n01,out))"
-                    _, alias, formula = line.split(' ', 3)
+                    _, alias, formula = line.split(' ', 2)
                     self._aliases[alias.strip()] = formula.strip()
             else:
                 # This is the typical RAW style parameter format <param>: <value>
@@ -582,12 +582,14 @@ class PlotData(PlotInterface):
             whattype = 'current'
         elif alias.startswith('V('):
             whattype = 'voltage'
+        elif alias.lower() == 'freq':
+            whattype = 'frequency'
         else:
-            raise NotImplementedError(f'Unrecognized alias type for alias : "{alias}"')
+            whattype = 'unknown'
+        self.read_trace_data(used_vars)
         trace = TraceRead(alias, whattype, self._nPoints, self._axis, 'double')
         local_vars = {'pi': 3.1415926536, 'e': 2.7182818285}  # This is the dictionary that will be used to compute the alias
         local_vars.update({name: scan_eng(value) for name, value in self._spice_params.items()})
-        self.read_trace_data(used_vars)
         local_vars.update({namify(name): self._read_traces[name].data for name in used_vars})
         try:
             trace.data = eval(formula, local_vars)
-- 
2.43.0


From c82e1604c075d91f7e0b4346f177d5e244cb0e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 045/142] fix: the last step of a log without a line end keeps
 its whole value

---
 spicelib/raw/plot_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 7de3156..49c063d 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -857,7 +857,7 @@ class PlotData(PlotInterface):
             for line in log:
                 if line.startswith(".step"):
                     step_dict = {}
-                    for tok in line[6:-1].split(' '):
+                    for tok in line[6:].rstrip('\r\n').split(' '):
                         if '=' not in tok:
                             continue
                         key, value = tok.split('=')
-- 
2.43.0


From e2881d50928b369997b9b861e659359c3bb77d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 046/142] fix: raw_convert exports the traces that were asked
 for

---
 spicelib/scripts/raw_convert.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spicelib/scripts/raw_convert.py b/spicelib/scripts/raw_convert.py
index 66e8121..6d03505 100644
--- a/spicelib/scripts/raw_convert.py
+++ b/spicelib/scripts/raw_convert.py
@@ -108,11 +108,12 @@ def main():
         print("Reading traces: ", found_traces)
 
     else:
+        found_traces = None
         raw_data = RawRead(rawfile, traces, dialect=options.dialect, verbose=options.verbose)
 
     # Output the file
     if options.output is None:
-        data = raw_data.export()
+        data = raw_data.export(columns=found_traces)
 
         text = options.separator.join(data.keys()) + '\n'
         data_size = len(data[data.__iter__().__next__()])
@@ -127,11 +128,11 @@ def main():
     else:
         if options.output.endswith(".csv"):
             print("Writing CSV file...", end="")
-            raw_data.to_csv(options.output, separator=options.separator, index=False)
+            raw_data.to_csv(options.output, columns=found_traces, separator=options.separator, index=False)
             print("Done")
         elif options.output.endswith(".xlsx"):
             print("Writing Excel file...", end="")
-            raw_data.to_excel(options.output, index=False)
+            raw_data.to_excel(options.output, columns=found_traces, index=False)
             print("Done")
         else:
             print("Error: Unknown output format. Valid formats are '.csv' and '.xlsx'")
-- 
2.43.0


From 4053a2b871ec10a2cf5ef3ab8d7df5f690f34f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 047/142] fix: exports of stepped operating points have one
 line per step, and column names with the separator are quoted

---
 spicelib/raw/plot_data.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 49c063d..f8e45c9 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -984,10 +984,13 @@ class PlotData(PlotInterface):
         self.read_trace_data(columns)
         for step in steps_to_read:
             for col in columns:
+                wave = self.get_wave(col, step)
+                if self._steps is not None and not self._has_axis:
+                    wave = wave[step:step + 1]  # Without an axis, there is one point per step
                 if col not in data:
-                    data[col] = self.get_wave(col, step)
+                    data[col] = wave
                 else:
-                    data[col] = np.concatenate((data[col], self.get_wave(col, step)))
+                    data[col] = np.concatenate((data[col], wave))
             if self._steps is not None and step < len(self._steps):
                 for col in step_columns:
                     if col not in data:
@@ -1043,7 +1046,9 @@ class PlotData(PlotInterface):
             # Export to CSV using python built-in functions
             data = self.export(columns=columns, step=step)
             with open(filename, 'w') as f:
-                f.write(separator.join(data.keys()) + '\n')
+                # Names containing the separator are quoted, otherwise they would be taken as several columns
+                f.write(separator.join('"%s"' % col.replace('"', '""') if separator in col else col
+                                       for col in data.keys()) + '\n')
                 firstcolumn = list(data.keys())[0]
                 for i in range(len(data[firstcolumn])):
                     f.write(separator.join([str(data[col][i]) for col in data.keys()]) + '\n')
-- 
2.43.0


From 074b9cedabb0ec7533278b84161bfc21ca2960ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:10 +0000
Subject: [PATCH 048/142] fix: a RAW file without plots has no waveforms,
 instead of an uninitialized one

---
 spicelib/raw/raw_read.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spicelib/raw/raw_read.py b/spicelib/raw/raw_read.py
index 20f837b..cb5e3ce 100644
--- a/spicelib/raw/raw_read.py
+++ b/spicelib/raw/raw_read.py
@@ -528,7 +528,7 @@ class RawRead(PlotInterface):
         :raises IndexError: When a trace is not found
         """
         if len(self._plots) == 0:
-            return np.ndarray([])
+            raise SpiceReadException("No plots found in the RAW file.")
         return self._plots[0].get_wave(trace_ref, step)
 
     def get_time_axis(self, step: int = 0) -> np.ndarray:
@@ -539,7 +539,7 @@ class RawRead(PlotInterface):
         It's workaround on a LTSpice issue when using 2nd Order compression, where some values on
         the time trace have a negative value."""
         if len(self._plots) == 0:
-            return np.ndarray([])
+            raise SpiceReadException("No plots found in the RAW file.")
         return self._plots[0].get_time_axis(step)
 
     def get_axis(self, step: int = 0) -> np.ndarray | list[float]:
@@ -553,7 +553,7 @@ class RawRead(PlotInterface):
         :return: Array with the X axis
         """
         if len(self._plots) == 0:
-            return np.ndarray([])
+            raise SpiceReadException("No plots found in the RAW file.")
         return self._plots[0].get_axis(step)
 
     def get_len(self, step: int = 0) -> int:
-- 
2.43.0


From 1dddfea78615fae807d43acf1c4b8ae6e6f144e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 049/142] fix: merging RAW files keeps every point of the
 common range, the requested step, and samples at their axis position

---
 spicelib/raw/raw_write.py | 84 ++++++++++++++++++++++++---------------
 1 file changed, 51 insertions(+), 33 deletions(-)

diff --git a/spicelib/raw/raw_write.py b/spicelib/raw/raw_write.py
index 0dae40c..79d836c 100644
--- a/spicelib/raw/raw_write.py
+++ b/spicelib/raw/raw_write.py
@@ -28,7 +28,7 @@ from time import strftime
 
 from .raw_read import RawRead
 from .raw_classes import DataSet
-from numpy import array, complex128, float32, float64, zeros
+from numpy import allclose, array, complex128, float32, float64, interp, real
 
 
 class Trace(DataSet):
@@ -255,6 +255,7 @@ class RawWrite:
         minimum_timestep = kwargs.get('minimum_timestep', 0.0)
         if isinstance(trace_filter, str):
             trace_filter = [trace_filter]
+        imported_traces = [other.get_trace(trace_name) for trace_name in trace_filter]  # Raises if one doesn't exist
 
         other_flags = other.get_raw_property('Flags').split(' ')
         for flag in other_flags:
@@ -295,65 +296,82 @@ class RawWrite:
             if minimum_timestep > 0.0:
                 raise NotImplementedError
             else:
+                my_axis = real(my_axis)  # The frequency can be stored as a complex
+                other_axis = real(other_axis)
+                sign = -1 if my_axis[-1] < my_axis[0] else 1  # A DC sweep can be descending
+                if (other_axis[-1] - other_axis[0]) * sign < 0:
+                    raise ValueError("The two instances should have their axis in the same direction")
+                # There is only data for both on the range that is common to the two axis.
+                start = max(my_axis[0] * sign, other_axis[0] * sign)
+                stop = min(my_axis[-1] * sign, other_axis[-1] * sign)
                 i = 0  # incomming data counter
                 e = 0  # existing data counter
+                source = None  # which axis contributed with the last point
 
-                while e < len(my_axis)-1 and i < len(other_axis)-1:
-                    error = other_axis[i] - my_axis[e]
-                    if abs(error) < admissible_error:
-                        new_axis.append(my_axis[e])
+                def same_point(a, b):
+                    return abs(a - b) < admissible_error + 1e-12 * abs(a)
+
+                while e < len(my_axis) or i < len(other_axis):
+                    if e < len(my_axis) and i < len(other_axis) and same_point(other_axis[i], my_axis[e]):
+                        point = my_axis[e]
+                        point_source = 'both'
                         i += 1
                         e += 1
-                    elif error < 0:
+                    elif i < len(other_axis) and (e == len(my_axis) or (other_axis[i] - my_axis[e]) * sign < 0):
                         # Other axis is smaller
-                        new_axis.append(other_axis[i])
+                        point = other_axis[i]
+                        point_source = 'other'
                         i += 1
                     else:
-                        new_axis.append(my_axis[e])
+                        point = my_axis[e]
+                        point_source = 'mine'
                         e += 1
+                    if start <= point * sign <= stop or same_point(point * sign, start) or same_point(point * sign, stop):
+                        if point_source != 'both' and source not in (None, point_source) and \
+                                same_point(point, new_axis[-1]):
+                            continue  # this point is represented by the one of the other axis
+                        new_axis.append(point)
+                        source = point_source
+                if len(new_axis) == 0:
+                    raise ValueError("The two instances don't have a common range on their axis")
                 # Creating the New Axis
                 self._new_axis = new_axis
 
-                for trace_name in trace_filter:
-                    imported_trace = other.get_trace(trace_name)
+                for trace_name, trace in zip(trace_filter, imported_traces):
                     new_name = self._rename_netlabel(trace_name, **kwargs)
-                    imported_trace.name = new_name
-                    self._imported_data.append(imported_trace)
+                    self._imported_data.append((Trace(new_name, trace.get_wave(from_step), trace.whattype,
+                                                      numerical_type=trace.numerical_type), other_axis))
         else:
-            assert len(self._traces[0]) == len(other.get_axis(from_step)), \
+            my_axis = self._traces[0].get_wave()
+            other_axis = other.get_axis(from_step)
+            assert len(my_axis) == len(other_axis), \
                 "The two instances should have the same size. To avoid this use force_axis_alignment=True option"
-            for trace_name in trace_filter:
-                trace = other.get_trace(trace_name)
+            assert allclose(my_axis, other_axis, rtol=1e-9, atol=admissible_error), \
+                "The two instances should have the same axis. To avoid this use force_axis_alignment=True option"
+            for trace_name, trace in zip(trace_filter, imported_traces):
                 new_name = self._rename_netlabel(trace_name, **kwargs)
                 data = trace.get_wave(from_step)
                 self._traces.append(Trace(new_name, data, trace.whattype, numerical_type=trace.numerical_type))
 
     @staticmethod
     def _interpolate(trace_data, trace_axis, new_axis: array):
-        new_data = zeros(len(new_axis), dtype=trace_data.dtype)
-        new_data[0] = trace_data[0]
-
-        slope = (trace_data[1] - trace_data[0])/(trace_axis[1] - trace_axis[0])
-        i = 1
-        for j, t in enumerate(new_axis):
-            while trace_axis[i] < t:
-                i += 1
-                slope = (trace_data[i] - trace_data[i-1])/(trace_axis[i] - trace_axis[i-1])
-            new_data[j] = trace_data[i-1] + slope * (t - trace_axis[i-1])
-        return new_data
+        trace_axis = real(trace_axis)
+        if trace_axis[-1] < trace_axis[0]:  # interp() needs an ascending axis
+            trace_axis = trace_axis[::-1]
+            trace_data = trace_data[::-1]
+        return interp(new_axis, trace_axis, trace_data).astype(trace_data.dtype)
 
     def _consolidate(self):
         if self._new_axis and self._imported_data:
             new_axis = self._new_axis
-            axis_length = len(new_axis)
             old_axis = self._traces[0]
-            if axis_length != len(old_axis):
-                my_axis = old_axis.data
-                for trace in self._traces[1:]:
-                    trace.data = self._interpolate(trace.data, my_axis, new_axis)
-            for imported_trace in self._imported_data:
+            my_axis = old_axis.data
+            for trace in self._traces[1:]:
+                trace.data = self._interpolate(trace.data, my_axis, new_axis)
+                trace.datalen = len(new_axis)
+            for imported_trace, imported_axis in self._imported_data:
                 new_trace = Trace(imported_trace.name,
-                                  self._interpolate(imported_trace.get_wave(), imported_trace.axis.get_wave(), new_axis),
+                                  self._interpolate(imported_trace.data, imported_axis, new_axis),
                                   imported_trace.whattype, imported_trace.numerical_type)
                 self._traces.append(new_trace)
             self._traces[0] = Trace(old_axis.name, new_axis,
-- 
2.43.0


From a550c29054da53b4aa36430124a28db3c44793b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 050/142] fix: the steps of a RAW file are found when their
 axis doesn't start at the same value

---
 spicelib/raw/raw_classes.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/spicelib/raw/raw_classes.py b/spicelib/raw/raw_classes.py
index 392fb0b..c64e9ef 100644
--- a/spicelib/raw/raw_classes.py
+++ b/spicelib/raw/raw_classes.py
@@ -95,14 +95,27 @@ class Axis(DataSet):
         self.step_offsets = None
 
     def set_steps(self, step_info: list[dict]):
-        # Now going to calculate the point offset for each step
+        # Now going to calculate the point offset for each step. A step starts where the axis goes back.
+        axis = np.real(np.abs(self.data) if self.name == 'time' else self.data)
+        direction = np.diff(axis)
+        direction = direction[direction != 0]
+        sign = -1 if len(direction) and direction[0] < 0 else 1
         step_offsets = [0]
         i = 1
-        while i < len(self.data):
-            if self.data[i] == self.data[0]:
+        while i < len(axis):
+            if (axis[i] - axis[i - 1]) * sign <= 0:
                 step_offsets.append(i)
             i += 1
 
+        if len(step_offsets) != len(step_info):
+            # The points aren't in order inside each step, then a step starts where the first point is repeated.
+            step_offsets = [0]
+            i = 1
+            while i < len(self.data):
+                if self.data[i] == self.data[0]:
+                    step_offsets.append(i)
+                i += 1
+
         if len(step_offsets) != len(step_info):
             raise SpiceReadException("The file a different number of steps than expected.\n" +
                                      "Expecting %d got %d" % (len(step_info), len(step_offsets)))
-- 
2.43.0


From 997ea11fb26e1e6500484d0415847693e03d96fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:19 +0000
Subject: [PATCH 051/142] fix: a trace asked for twice is exported once, with
 its own samples

---
 spicelib/raw/plot_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index f8e45c9..4f52b12 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -961,7 +961,7 @@ class PlotData(PlotInterface):
         if columns is None:
             columns = self.get_trace_names()  # if no columns are given, use all traces
         else:
-            columns = list(columns)  # The list given by the user is not changed
+            columns = list(dict.fromkeys(columns))  # The list given by the user is not changed. A trace is only taken once
             axis = self._get_axis()
             if axis is not None and axis.name not in columns:  # If axis is not in the list, add it
                 columns.insert(0, axis.name)
-- 
2.43.0


From 49f08b57cc330b4b605650d090637fd831b5ad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 052/142] fix: imports into a RAW file with traces pending
 alignment use the new axis, and disjoint axes are refused

---
 spicelib/raw/raw_write.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/spicelib/raw/raw_write.py b/spicelib/raw/raw_write.py
index 79d836c..344fb35 100644
--- a/spicelib/raw/raw_write.py
+++ b/spicelib/raw/raw_write.py
@@ -298,12 +298,16 @@ class RawWrite:
             else:
                 my_axis = real(my_axis)  # The frequency can be stored as a complex
                 other_axis = real(other_axis)
-                sign = -1 if my_axis[-1] < my_axis[0] else 1  # A DC sweep can be descending
-                if (other_axis[-1] - other_axis[0]) * sign < 0:
+                my_range = my_axis[-1] - my_axis[0]
+                other_range = other_axis[-1] - other_axis[0]
+                sign = -1 if my_range < 0 or other_range < 0 else 1  # A DC sweep can be descending
+                if my_range * other_range < 0:
                     raise ValueError("The two instances should have their axis in the same direction")
                 # There is only data for both on the range that is common to the two axis.
                 start = max(my_axis[0] * sign, other_axis[0] * sign)
                 stop = min(my_axis[-1] * sign, other_axis[-1] * sign)
+                if start > stop:
+                    raise ValueError("The two instances don't have a common range on their axis")
                 i = 0  # incomming data counter
                 e = 0  # existing data counter
                 source = None  # which axis contributed with the last point
@@ -332,8 +336,6 @@ class RawWrite:
                             continue  # this point is represented by the one of the other axis
                         new_axis.append(point)
                         source = point_source
-                if len(new_axis) == 0:
-                    raise ValueError("The two instances don't have a common range on their axis")
                 # Creating the New Axis
                 self._new_axis = new_axis
 
@@ -342,6 +344,7 @@ class RawWrite:
                     self._imported_data.append((Trace(new_name, trace.get_wave(from_step), trace.whattype,
                                                       numerical_type=trace.numerical_type), other_axis))
         else:
+            self._consolidate()  # Traces pending alignment may change the axis
             my_axis = self._traces[0].get_wave()
             other_axis = other.get_axis(from_step)
             assert len(my_axis) == len(other_axis), \
-- 
2.43.0


From e9ca8705367b57386c2751b17c8919917573bd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:51 +0000
Subject: [PATCH 053/142] fix: command line switches are those of the moment of
 the launch, without empty arguments

---
 spicelib/sim/sim_runner.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 88e10c6..3be9e83 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -416,7 +416,7 @@ class SimRunner(AnyRunner):
         :returns: Nothing
         """
         self.cmdline_switches.append(switch)
-        if path is not None:
+        if path:
             self.cmdline_switches.append(path)
 
     def _on_output_folder(self, afile):
@@ -569,7 +569,7 @@ class SimRunner(AnyRunner):
         t0 = time.time()  # Store the time for timeout calculation
         # Give one second slack in relation to the task timeout. If timeout is None, there is no limit
         while timeout is None or time.time() - t0 < timeout + 1:
-            cmdline_switches = switches or self.cmdline_switches  # If switches are passed, they override the ones
+            cmdline_switches = list(switches or self.cmdline_switches)  # If switches are passed, they override the ones
             # inside the class.
 
             if (wait_resource is False) or (self.active_threads() < self.parallel_sims):
@@ -614,7 +614,7 @@ class SimRunner(AnyRunner):
             switches = []
         run_netlist_file = self._prepare_sim(netlist, run_filename)
 
-        cmdline_switches = switches or self.cmdline_switches  # If switches are passed, they override the ones inside
+        cmdline_switches = list(switches or self.cmdline_switches)  # If switches are passed, they override the ones inside
         # the class.
 
         if timeout is None:
-- 
2.43.0


From 38f3dc203daf0bdbf4b4cdfbd02d4a0cec675708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 054/142] fix: switches that the simulators have are accepted,
 each with its own arguments

---
 spicelib/simulators/ltspice_simulator.py |  2 +-
 spicelib/simulators/ngspice_simulator.py |  8 ++++----
 spicelib/simulators/xyce_simulator.py    | 12 +++++++++---
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/spicelib/simulators/ltspice_simulator.py b/spicelib/simulators/ltspice_simulator.py
index 2fcaecc..8f037c3 100644
--- a/spicelib/simulators/ltspice_simulator.py
+++ b/spicelib/simulators/ltspice_simulator.py
@@ -155,7 +155,7 @@ class LTspice(Simulator):
         '-FixUpSymbolFonts'   : ['-FixUpSymbolFonts'],
         # Convert the font size field of very old user - authored symbols to the modern default.
         # See Changelog.txt for application hints.
-        '-ini'                : ['- ini', '<path>'],  # Specify an .ini file to use other than %APPDATA%\LTspice.ini
+        '-ini'                : ['-ini', '<path>'],  # Specify an .ini file to use other than %APPDATA%\LTspice.ini
         '-I'                  : ['-I<path>'],  # Specify a path to insert in the symbol and file search paths.
         # Must be the last specified option.
         # No space between "-I" and < path > is allowed.
diff --git a/spicelib/simulators/ngspice_simulator.py b/spicelib/simulators/ngspice_simulator.py
index e193787..9957a32 100644
--- a/spicelib/simulators/ngspice_simulator.py
+++ b/spicelib/simulators/ngspice_simulator.py
@@ -130,7 +130,7 @@ class NGspiceSimulator(Simulator):
         :return: the correct formatting for the switch
         """
         ret = []  # This is an empty switch
-        parameter = parameter.strip()
+        parameter = parameter.strip() if parameter else ''
 
         # format check
         if switch is None:
@@ -147,18 +147,18 @@ class NGspiceSimulator(Simulator):
             return []        
         
         if switch in cls.ngspice_args:
-            if cls.set_compatibility_mode and (switch == '-D' or switch == '--define') and parameter.lower().startswith("ngbehavior"):
+            if cls._compatibility_mode and (switch == '-D' or switch == '--define') and parameter.lower().startswith("ngbehavior"):
                 _logger.info(f"Switch {switch} {parameter} is already in the default switches, use 'set_compatibility_mode' instead")
                 return ret                
             switch_list = cls.ngspice_args[switch]
             if len(switch_list) == 2:
                 param_token = switch_list[1]
-                if param_token == '<FILE>' or param_token == '<TERM>' or (param_token == 'var_value' and '=' in parameter):
+                if param_token == '<FILE>' or param_token == '<TERM>' or (param_token == 'var_value' and parameter):
                     ret = [switch_list[0], parameter]
                 else:
                     _logger.warning(f"Invalid parameter {parameter} for switch '{switch}'")
             else:
-                ret = switch_list
+                ret = list(switch_list)
         else:
             raise ValueError(f"Invalid Switch '{switch}'")
         return ret
diff --git a/spicelib/simulators/xyce_simulator.py b/spicelib/simulators/xyce_simulator.py
index a77b48b..326e82b 100644
--- a/spicelib/simulators/xyce_simulator.py
+++ b/spicelib/simulators/xyce_simulator.py
@@ -92,13 +92,15 @@ class XyceSimulator(Simulator):
         # set option for redefined .params as ignore (use last), usefirst, warn or error
         '-subckt_multiplier': ['-subckt_multiplier', '<truefalse_option>'],
         # set option to true(default) or false to apply implicit subcircuit multipliers
+        '-local_variation'  : ['-local_variation', '<truefalse_option>'],
+        # set option to true(default) or false to enable local variation in UQ analysis
         '-delim'            : ['-delim', '<delim_option>'],  # <TAB|COMMA|string>   set the output file field delimiter
         '-o'                : ['-o', '<basename>'],  # <basename> for the output file(s)
         # '-l'                : ['-l', '<path>'],  # place the log output into <path>, "cout" to log to stdout
         '-per-processor'    : ['-per-processor'],  # create log file for each processor, add .<n>.<r> to log path
         '-remeasure'        : ['-remeasure', '<path>'],
         # [existing Xyce output file] recompute .measure() results with existing data
-        '-nox'              : ['-nox', 'onoff_option'],  # <on|off>               NOX nonlinear solver usage
+        '-nox'              : ['-nox', '<onoff_option>'],  # <on|off>               NOX nonlinear solver usage
         '-linsolv'          : ['-linsolv', '<solver>'],  # <solver>           force usage of specific linear solver
         '-maxord'           : ['-maxord', '<int_option>'],  # <1..5>              maximum time integration order
         '-max-warnings'     : ['-max-warnings', '<int_option>'],  # <#>           maximum number of warning messages
@@ -183,9 +185,13 @@ class XyceSimulator(Simulator):
                     ret = [switch_list[0], parameter]
                 elif param_token == '<param_options>':
                     # Check for [device [level [<inst|mod>]]] syntax ??
-                    ret = [switch_list[0], parameter]  # TODO: this will probably not work, need to separate the parameters
+                    ret = [switch_list[0]] + parameter.split()
                 elif param_token == '<hsext_options>':
                     ret = [switch_list[0], parameter]
+                elif param_token == '<basename>':
+                    ret = [switch_list[0], parameter]
+                elif param_token == '<solver>':
+                    ret = [switch_list[0], parameter]
                 elif param_token == '<redef_param_option>':
                     if parameter in ('ignore', 'uselast', 'usefirst', 'warn', 'error'):
                         ret = [switch_list[0], parameter]
@@ -209,7 +215,7 @@ class XyceSimulator(Simulator):
                 else:
                     _logger.warning(f"Invalid parameter {parameter} for switch '{switch}'")
             else:
-                ret = switch_list
+                ret = list(switch_list)
         else:
             raise ValueError(f"Invalid Switch '{switch}'")
         return ret
-- 
2.43.0


From b7b3f11250d8ccf3442bb75b8816fc2f575d7c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:15 +0000
Subject: [PATCH 055/142] fix: text with a single character or in windows-1252
 isn't taken as UTF-16, UTF-8 with BOM is recognized

---
 spicelib/utils/detect_encoding.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/spicelib/utils/detect_encoding.py b/spicelib/utils/detect_encoding.py
index e0cdcd3..9e98a7f 100644
--- a/spicelib/utils/detect_encoding.py
+++ b/spicelib/utils/detect_encoding.py
@@ -23,6 +23,7 @@ International Support functions
 Not using other known unicode detection libraries because we don't need something so complicated. LTSpice only supports
 for the time being a reduced set of encodings.
 """
+import codecs
 import re
 from pathlib import Path
 
@@ -46,7 +47,13 @@ def detect_encoding(file_path: str | Path, expected_pattern: str = '', re_flags:
     :return: detected encoding
 
     """
-    for encoding in ('utf-8', 'utf-16', 'utf_16_le', 'windows-1252', 'cp1252', 'cp1250', 'shift_jis'):
+    with open(file_path, 'rb') as f:
+        raw = f.read()
+    utf8 = 'utf-8-sig' if raw.startswith(codecs.BOM_UTF8) else 'utf-8'
+    can_be_utf16 = raw.startswith((codecs.BOM_UTF16_LE, codecs.BOM_UTF16_BE)) or b'\x00' in raw
+    for encoding in (utf8, 'utf-16', 'utf_16_le', 'windows-1252', 'cp1252', 'cp1250', 'shift_jis'):
+        if '16' in encoding and not can_be_utf16:
+            continue  # Any text with an even number of bytes would be accepted
         try:
             with open(file_path, encoding=encoding) as f:
                 lines = f.read()
@@ -66,7 +73,7 @@ def detect_encoding(file_path: str | Path, expected_pattern: str = '', re_flags:
                     # File did not have the expected string
                     # Try again with a different encoding (This is unlikely to resolve the issue)
                     continue
-            if encoding == 'utf-8' and lines[1] == '\x00':
+            if encoding == 'utf-8' and '\x00' in lines[:2]:
                 continue
             return encoding
     else:
-- 
2.43.0


From 31bed1dbd815b1fa237027e00826d3abb0c296a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:15 +0000
Subject: [PATCH 056/142] fix: files in zip archives are searched as in
 directories, the same letter case is preferred

---
 spicelib/utils/file_search.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/spicelib/utils/file_search.py b/spicelib/utils/file_search.py
index 1d787d8..a1f5a8c 100644
--- a/spicelib/utils/file_search.py
+++ b/spicelib/utils/file_search.py
@@ -18,6 +18,7 @@
 # -------------------------------------------------------------------------------
 import os
 import zipfile
+import zlib
 import logging
 
 __author__ = "Nuno Canto Brum <nuno.brum@gmail.com>"
@@ -36,6 +37,8 @@ def find_file_in_directory(directory, filename):
     if path != '':
         directory = os.path.join(directory, path)
     for root, dirs, files in os.walk(directory):
+        if filename in files:
+            return os.path.join(root, filename)
         # match case insensitive, but store the file system's file name, as the file system may be case sensitive
         for filefound in files:
             if filename.lower() == filefound.lower():
@@ -43,6 +46,18 @@ def find_file_in_directory(directory, filename):
     return None
 
 
+def find_file_in_zip(names, filename):
+    """
+    Searches for a file with the given filename in the names of a zip file, as it is done on a directory.
+    Returns the name of the file in the zip file if found, or None if not found.
+    """
+    path, basename = os.path.split(filename.lower())
+    found = [name for name in names if os.path.basename(name.lower()) == basename and basename != '' and
+             (path == '' or name.lower().startswith(path + '/'))]
+    # the files in the upper directories and the ones with the same letter case come first
+    return min(found, key=lambda name: (name.count('/'), os.path.basename(name) != os.path.basename(filename)), default=None)
+
+
 def search_file_in_containers(filename, *containers) -> str | None:
     """
     Searches for a file with the given filename in the specified containers.
@@ -57,18 +72,18 @@ def search_file_in_containers(filename, *containers) -> str | None:
     for container in containers:
         _logger.debug(f"Searching for '{filename}' in '{container}'")
         if os.path.exists(container):  # Skipping invalid paths
-            if container.endswith('.zip'):
+            if container.lower().endswith('.zip') and os.path.isfile(container):
                 # Search in zip files
                 with zipfile.ZipFile(container, 'r') as zip_ref:
-                    files = zip_ref.namelist()
-                    for filefound in files:
-                        # match case insensitive, but store the file system's file name, as the file system may be case sensitive
-                        if filename.lower() == filefound.lower():
-                            temp_dir = os.path.join('.', 'spice_lib_temp')
-                            if not os.path.exists(temp_dir):
-                                os.makedirs(temp_dir)
-                            _logger.debug(f"Found. Extracting '{filefound}' from the zip file to '{temp_dir}'")
-                            return zip_ref.extract(filefound, path=temp_dir)
+                    filefound = find_file_in_zip(zip_ref.namelist(), filename)
+                    if filefound is not None:
+                        # each zip file has its own directory, as they may have files with the same name
+                        zip_id = zlib.crc32(os.path.abspath(container).encode())
+                        temp_dir = os.path.join('.', 'spice_lib_temp', f"{os.path.basename(container)}_{zip_id:08x}")
+                        if not os.path.exists(temp_dir):
+                            os.makedirs(temp_dir)
+                        _logger.debug(f"Found. Extracting '{filefound}' from the zip file to '{temp_dir}'")
+                        return zip_ref.extract(filefound, path=temp_dir)
             else:
                 filefound = find_file_in_directory(container, filename)
                 if filefound is not None:
-- 
2.43.0


From c8f689557a2f5ca9ded75ffe12653db3441ffb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:15 +0000
Subject: [PATCH 057/142] fix: subcircuits are searched in libraries by their
 whole name, whatever the first line of the library

---
 spicelib/editor/spice_subcircuit.py | 4 ++--
 spicelib/editor/spice_utils.py      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index c592114..6a8fce9 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -983,10 +983,10 @@ class SpiceCircuit(BaseSubCircuit):
         :meta private:
         """
         # 0. Setup things
-        reg_subckt = re.compile(SUBCKT_CLAUSE_FIND + subckt_name, re.IGNORECASE)
+        reg_subckt = re.compile(SUBCKT_CLAUSE_FIND + re.escape(subckt_name) + r"(?=\s|$)", re.IGNORECASE)
         # 1. Find Encoding
         try:
-            encoding = detect_encoding(library, r"[\* a-zA-Z]")
+            encoding = detect_encoding(library)
         except EncodingDetectError:
             return None
         #  2. scan the file
diff --git a/spicelib/editor/spice_utils.py b/spicelib/editor/spice_utils.py
index 5d2b96c..6333ae6 100644
--- a/spicelib/editor/spice_utils.py
+++ b/spicelib/editor/spice_utils.py
@@ -53,7 +53,7 @@ SPICE_DOT_INSTRUCTIONS = (
     '.WAVE',  # Write Selected Nodes to a .Wav File
 
 )
-SUBCKT_CLAUSE_FIND = r"^.SUBCKT\s+"
+SUBCKT_CLAUSE_FIND = r"^\.SUBCKT\s+"
 subckt_regex = re.compile(r"^.SUBCKT\s+(?P<name>[\w\.]+)", re.IGNORECASE)
 lib_inc_regex = re.compile(
     r"^\.(LIB|INC(LUDE)?)\s+(?P<quote>[\"'])?(?P<filename>(?(quote)[^\"']+|.+?))(?(quote)(?P=quote).*|\s*(?:[;*].*)?)$",
-- 
2.43.0


From 28c2dda8fc319c626668bae20d6321ed82761ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:22 +0000
Subject: [PATCH 058/142] fix: lines after the operating points of
 semiconductor devices aren't taken as device parameters

---
 spicelib/log/semi_dev_op_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spicelib/log/semi_dev_op_reader.py b/spicelib/log/semi_dev_op_reader.py
index 518cd5a..3e3d2c0 100644
--- a/spicelib/log/semi_dev_op_reader.py
+++ b/spicelib/log/semi_dev_op_reader.py
@@ -105,6 +105,9 @@ def opLogReader(filename: str) -> dict:
             if match is not None:
                 where = match.group(1)
                 dataset[where.lower()] = {}  # Creates a dictionary for each component type
+                n_devices = 0
+            elif len(line.strip()) == 0:
+                n_devices = 0  # An empty line ends the list of parameters of these devices
             else:
                 cols = re.split(r'\s+', line.rstrip('\r\n'))
                 if len(cols) > 1 and (cols[0].endswith(":") or cols[0] == 'Gmb'):  # The last 'or condition solves an
-- 
2.43.0


From ad0bb6143edede3b4da232abc7d58a0f4e3238d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:22 +0000
Subject: [PATCH 059/142] fix: QSPICE measurements are stored by step number,
 failed ones and empty lines don't raise exceptions

---
 spicelib/log/qspice_log_reader.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/spicelib/log/qspice_log_reader.py b/spicelib/log/qspice_log_reader.py
index 5319055..780af4c 100644
--- a/spicelib/log/qspice_log_reader.py
+++ b/spicelib/log/qspice_log_reader.py
@@ -145,7 +145,7 @@ class QspiceLogReader(LogfileData):
         :type meas_filename: str or pathlib.Path
         :returns: Nothing
         """
-        meas_regex = re.compile(r"^\.meas (\w+) (\w+) (.*)$")
+        meas_regex = re.compile(r"^\.meas\s+(\w+)\s+(\w+)\s+(.*)$", re.IGNORECASE)
         meas_name = None
         headers = None
 
@@ -157,7 +157,7 @@ class QspiceLogReader(LogfileData):
                     headers = None
                     token1 = match.group(1)
                     token2 = match.group(2)
-                    if token1 in ('tran', 'ac', 'dc', 'op'):
+                    if token1.lower() in ('tran', 'ac', 'dc', 'op', 'noise'):
                         sim_type = token1
                         meas_name = token2
                     else:
@@ -168,17 +168,21 @@ class QspiceLogReader(LogfileData):
                 else:
                     if meas_name:
                         values = split_line_into_values(line)
+                        step = 0
+                        if values and self.has_steps():
+                            step = values.pop(0)  # On stepped simulations the first column is the step number
+                        if len(values) == 0 or not isinstance(step, int) or isinstance(values[0], str):
+                            # An empty line or a step on which the measurement failed. There are no values to store
+                            line = fin.readline()
+                            continue
                         if headers is None:
-                            if self.has_steps():
-                                headers = ['step'] + [meas_name + "_" + str(i) for i in range(len(values) - 1)]
-                                headers[1] = meas_name  # first column is the measure name without _0
-                            else:
-                                headers = [meas_name + "_" + str(i) for i in range(len(values))]
-                                headers[0] = meas_name  # first column is the measure name without _0
-
-                            for title in headers:
-                                self.dataset[title.lower()] = []
+                            headers = []
+                        while len(headers) < len(values):
+                            # first column is the measure name without _0
+                            title = meas_name + "_" + str(len(headers)) if headers else meas_name
+                            headers.append(title)
+                            self.dataset[title.lower()] = [None] * max(1, self.step_count)
                         self.measure_count += 1
-                        for k, title in enumerate(headers):
-                            self.dataset[title.lower()].append(values[k])
+                        for title, value in zip(headers, values):
+                            self.dataset[title.lower()][step] = value
                 line = fin.readline()
-- 
2.43.0


From b0236af7d6b388e041fdcaf64e8f50d5577f222b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:22 +0000
Subject: [PATCH 060/142] fix: LTspice measurements are stored by step number,
 .mout files can be read, header lines aren't measurements

---
 spicelib/log/logfile_data.py |  5 +++-
 spicelib/log/ltsteps.py      | 47 ++++++++++++++++++++++++------------
 2 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/spicelib/log/logfile_data.py b/spicelib/log/logfile_data.py
index c8f561a..815ce78 100644
--- a/spicelib/log/logfile_data.py
+++ b/spicelib/log/logfile_data.py
@@ -161,7 +161,8 @@ class LogfileData:
         else:
             self.dataset = dataset.copy()  # A copy is done since the dictionary is a mutable object.
 
-        self.step_count = len(self.stepset)
+        # The stepset has one list per stepped variable, each with one value per step
+        self.step_count = max((len(values) for values in self.stepset.values()), default=0)
         self.measure_count = len(self.dataset)
 
     def __getitem__(self, key):
@@ -225,6 +226,8 @@ class LogfileData:
             else:
                 # makes the intersection between the lists
                 current_set = [v for v in current_set if v in condition_set]
+        if current_set is None:  # without conditions there is nothing to exclude
+            current_set = list(range(self.step_count))
         return current_set
 
     def get_step_vars(self) -> list[str]:
diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index d0c3e37..30e5221 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -296,7 +296,7 @@ class LTSpiceLogReader(LogfileData):
         self.logname = log_filename
         self.fourier = {}
         if encoding is None:
-            self.encoding = detect_encoding(log_filename, r"^((.*\n)?Circuit:|([\s\S]*)--- Expanded Netlist ---)")
+            self.encoding = detect_encoding(log_filename, r"^((.*\n)?(Circuit:|Measurement:)|([\s\S]*)--- Expanded Netlist ---)")
         else:
             self.encoding = encoding
 
@@ -326,6 +326,10 @@ class LTSpiceLogReader(LogfileData):
                 if len(line.strip()) == 0:
                     # skip empty lines
                     pass
+                elif line.startswith(("Circuit:", "Options:")):
+                    # these lines can contain assignments that aren't measurements
+                    line = fin.readline()
+                    continue
                 elif line.startswith("N-Period"):
                     # Read number of periods
                     n_periods = line.strip('\r\n').split("=")[-1].strip()
@@ -417,48 +421,59 @@ class LTSpiceLogReader(LogfileData):
             dataname = None
 
             headers = []  # Initializing an empty parameters
-            measurements = []
+            measurements = {}  # The values read on each step. A step without a line, or with a failure, has no values
+            titles = []  # The titles of all the measurements that were read
+
+            def store_measurement():
+                _logger.debug("Storing Measurement %s (count %d)" % (dataname, len(measurements)))
+                self.measure_count += len(measurements)
+                n_steps = max(self.step_count, max(measurements))
+                for k, title in enumerate(headers):
+                    values = [None] * n_steps
+                    for step, measure in measurements.items():
+                        if k < len(measure):
+                            values[step - 1] = measure[k]
+                    self.dataset[title.lower()] = values
+                    titles.append(title.lower())
+
             while line:
                 line = line.strip('\r\n')
                 if line.startswith("Measurement: "):
                     if dataname:  # If previous measurement was saved
                         # store the info
                         if len(measurements):
-                            _logger.debug("Storing Measurement %s (count %d)" % (dataname, len(measurements)))
-                            self.measure_count += len(measurements)
-                            for k, title in enumerate(headers):
-                                self.dataset[title.lower()] = [measure[k] for measure in measurements]
+                            store_measurement()
                         headers = []
-                        measurements = []
+                        measurements = {}
                     dataname = line[13:]  # text which is after "Measurement: ". len("Measurement: ") -> 13
                     _logger.debug("Reading Measurement %s" % line[13:])
                 else:
                     tokens = line.split("\t")
                     if len(tokens) >= 2:
                         try:
-                            int(tokens[0])  # This instruction only serves to trigger the exception
+                            step = int(tokens[0])  # Also serves to trigger the exception
                             meas = tokens[1:]  # remove the first token
-                            measurements.append(try_convert_value(meas))
-                            self.measure_count += 1
+                            if not meas[0].strip().upper().startswith("FAIL"):
+                                measurements[step] = try_convert_value(meas)
                         except ValueError:
                             if len(tokens) >= 3 and (tokens[2] == "FROM" or tokens[2] == 'at'):
                                 tokens[2] = dataname + '_' + tokens[2]
                             if len(tokens) >= 4 and tokens[3] == "TO":
                                 tokens[3] = dataname + "_TO"
                             headers = [dataname] + tokens[2:]
-                            measurements = []
+                            measurements = {}
                     else:
                         _logger.debug("->" + line)
 
                 line = fin.readline()  # advance to the next line
 
             # storing the last data into the dataset
-            if dataname:
-                _logger.debug("Storing Measurement %s (count %d)" % (dataname, len(measurements)))
             if len(measurements):
-                self.measure_count += len(measurements)
-                for k, title in enumerate(headers):
-                    self.dataset[title.lower()] = [measure[k] for measure in measurements]
+                store_measurement()
+            # when the number of steps isn't known, it is given by the longest measurement
+            n_steps = max((len(self.dataset[title]) for title in titles), default=0)
+            for title in titles:
+                self.dataset[title].extend([None] * (n_steps - len(self.dataset[title])))
 
             _logger.debug("%d measurements" % len(self.dataset))
             _logger.info("Identified %d steps, read %d measurements" % (self.step_count, self.measure_count))
-- 
2.43.0


From c908c280d3b3ef9a1cb47b4afa03a9690071642b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 061/142] fix: ltsteps takes the log of a .mout file from its
 whole name

---
 spicelib/scripts/ltsteps.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/spicelib/scripts/ltsteps.py b/spicelib/scripts/ltsteps.py
index 7b633e9..c87b71f 100644
--- a/spicelib/scripts/ltsteps.py
+++ b/spicelib/scripts/ltsteps.py
@@ -146,7 +146,7 @@ def main():
             data.split_complex_values_on_datasets()
             data.export_data(fname_out)
         elif filename.endswith(".mout"):
-            log_file = filename[:len('mout')] + 'log'
+            log_file = filename[:-len('mout')] + 'log'
             if os.path.exists(log_file):
                 steps = LTSpiceLogReader(log_file, read_measures=False)
                 data = LTSpiceLogReader(filename, step_set=steps.stepset)
@@ -156,7 +156,6 @@ def main():
                 data = LTSpiceLogReader(filename)
             data.split_complex_values_on_datasets()
             data.export_data(fname_out)
-            data.export_data(fname_out)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 87ab0d5b021774e8031e340df0697a57cfd2347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 062/142] fix: text exports without steps, and with any value
 of the stepped parameters, are read

---
 spicelib/log/ltsteps.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index 30e5221..f711690 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -126,7 +126,7 @@ def reformat_LTSpice_export(export_file: str, tabular_file: str):
     go_header = True
     run_no = 0  # Just to avoid warning, this is later overridden by the step information
     param_values = ""  # Just to avoid warning, this is later overridden by the step information
-    regx = re.compile(r"Step Information: ([\w=\d\. \-]+) +\((?:Run|Step): (\d*)/\d*\)\n")
+    regx = re.compile(r"Step Information: (.+?) +\((?:Run|Step): (\d*)/\d*\)")
     for line in fin:
         if line.startswith("Step Information:"):
             match = regx.match(line)
@@ -146,8 +146,13 @@ def reformat_LTSpice_export(export_file: str, tabular_file: str):
                     fout.write(msg)
                     _logger.debug(msg)
                     go_header = False
-        else:
+        elif run_no:
             fout.write(f"{run_no}\t{param_values}\t{line}")
+        else:  # There are no steps in the file
+            if go_header:
+                fout.write(headers)
+                go_header = False
+            fout.write(line)
 
     fin.close()
     fout.close()
@@ -180,14 +185,16 @@ class LTSpiceExport:
         fin = open(export_filename, encoding=self.encoding)
         file_header = fin.readline()
 
-        self.headers = file_header.split('\t')
+        self.headers = file_header.rstrip('\n').split('\t')
         # Set to read header
         go_header = True
 
         curr_dic = {}
         self.dataset = {}
+        for key in self.headers:
+            self.dataset[key.lower()] = []  # Initializes an empty list
 
-        regx = re.compile(r"Step Information: ([\w=\d\. -]+) +\(Run: (\d*)/\d*\)\n")
+        regx = re.compile(r"Step Information: (.+?) +\((?:Run|Step): (\d*)/\d*\)")
         for line in fin:
             if line.startswith("Step Information:"):
                 match = regx.match(line)
@@ -200,9 +207,6 @@ class LTSpiceExport:
 
                     if go_header:
                         go_header = False  # This is executed only once
-                        for key in self.headers:
-                            self.dataset[key.lower()] = []  # Initializes an empty list
-
                         for key in curr_dic:
                             self.dataset[key.lower()] = []  # Initializes an empty list
 
-- 
2.43.0


From d82d7fb08667f7e55e44a5509cd7ac8604ef08d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 063/142] fix: exported tables quote the separators in values,
 use the line terminator and include steps with failed measurements

---
 spicelib/log/logfile_data.py | 60 +++++++++++++++++++++---------------
 spicelib/log/ltsteps.py      | 13 +++++---
 2 files changed, 45 insertions(+), 28 deletions(-)

diff --git a/spicelib/log/logfile_data.py b/spicelib/log/logfile_data.py
index 815ce78..d99be54 100644
--- a/spicelib/log/logfile_data.py
+++ b/spicelib/log/logfile_data.py
@@ -346,9 +346,11 @@ class LogfileData:
         The two columns correspond to the magnitude and phase of the complex value in degrees.
         """
         for param in list(self.dataset.keys()):
-            if len(self.dataset[param]) > 0 and isinstance(self.dataset[param][0], LTComplex):
-                self.dataset[param + '_mag'] = [v.mag for v in self.dataset[param]]
-                self.dataset[param + '_ph'] = [v.ph for v in self.dataset[param]]
+            values = self.dataset[param]
+            if any(isinstance(v, LTComplex) for v in values):
+                # The steps on which the measurement failed don't have a complex value
+                self.dataset[param + '_mag'] = [v.mag if isinstance(v, LTComplex) else None for v in values]
+                self.dataset[param + '_ph'] = [v.ph if isinstance(v, LTComplex) else None for v in values]
 
     def split_complex_values_on_datasets(self):
         """
@@ -387,7 +389,18 @@ class LogfileData:
         if encoding is None:
             encoding = self.encoding if hasattr(self, 'encoding') else 'utf-8'
 
-        fout = open(export_file, mode, encoding=encoding)
+        def number_of_columns(values) -> int:
+            """A list of values is written in one column per value"""
+            return max((len(value) for value in values if isinstance(value, list)), default=1)
+
+        def quoted(value) -> str:
+            """Text that would be taken as more than one value is written within quotes"""
+            text = "" if value is None else f'{value}'
+            if value_separator in text or '"' in text:
+                text = '"' + text.replace('"', '""') + '"'
+            return text
+
+        fout = open(export_file, mode, encoding=encoding, newline=None if line_terminator == '\n' else '')
 
         if append_with_line_prefix is not None:  # if appending a file, it must write the column title
             fout.write('user info' + value_separator)
@@ -402,12 +415,12 @@ class LogfileData:
                 if len(values) != data_size:
                     raise Exception("Data size mismatch. Not all measurements have the same length.")
 
-            if isinstance(values[0], list) and len(values[0]) > 1:
-                for n in range(len(values[0])):
-                    fout.write(value_separator + "%s_%d" % (title, n))
+            if number_of_columns(values) > 1:
+                for n in range(number_of_columns(values)):
+                    fout.write(value_separator + quoted("%s_%d" % (title, n)))
                     columns_per_line += 1
             else:
-                fout.write(value_separator + title)
+                fout.write(value_separator + quoted(title))
                 columns_per_line += 1
 
         for title, values in self.dataset.items():
@@ -418,15 +431,15 @@ class LogfileData:
                     logging.error(f"Data size mismatch. Not all measurements have the same length."
                                   f" Expected {data_size}. \"{title}\" has {len(values)}")
 
-            if isinstance(values[0], list) and len(values[0]) > 1:
-                for n in range(len(values[0])):
-                    fout.write(value_separator + "%s_%d" % (title, n))
+            if number_of_columns(values) > 1:
+                for n in range(number_of_columns(values)):
+                    fout.write(value_separator + quoted("%s_%d" % (title, n)))
                     columns_per_line += 1
             else:
-                fout.write(value_separator + title)
+                fout.write(value_separator + quoted(title))
                 columns_per_line += 1
 
-        fout.write('\n')  # Finished to write the headers
+        fout.write(line_terminator)  # Finished to write the headers
 
         if data_size is None:
             data_size = 0  # Skips writing data in the loop below
@@ -439,30 +452,29 @@ class LogfileData:
             meas_data = [self.dataset[param][index] for param in self.dataset.keys()]
 
             if append_with_line_prefix is not None:  # if appending a file it must write the user info
-                fout.write(append_with_line_prefix + value_separator)
+                fout.write(quoted(append_with_line_prefix) + value_separator)
             fout.write("%d" % (index + 1))
             columns_writen = 1
             for s in step_data:
                 if isinstance(s, list):
                     for x in s:
-                        fout.write(value_separator + f'{x}')
+                        fout.write(value_separator + quoted(x))
                         columns_writen += 1
                 else:
-                    fout.write(value_separator + f'{s}')
+                    fout.write(value_separator + quoted(s))
                     columns_writen += 1
 
-            for tok in meas_data:
-                if isinstance(tok, list):
-                    for x in tok:
-                        fout.write(value_separator + f'{x}')
-                        columns_writen += 1
-                else:
-                    fout.write(value_separator + f'{tok}')
+            for tok, values in zip(meas_data, self.dataset.values()):
+                if not isinstance(tok, list):
+                    tok = [tok]
+                # A failed measurement has less values than there are columns
+                for x in tok + [None] * (number_of_columns(values) - len(tok)):
+                    fout.write(value_separator + quoted(x))
                     columns_writen += 1
             if columns_writen != columns_per_line:
                 logging.error(f"Line with wrong number of values."
                               f" Expected:{columns_per_line} Index {index+1} has {columns_writen}")
-            fout.write('\n')
+            fout.write(line_terminator)
 
         fout.close()
 
diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index f711690..a42c061 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -482,9 +482,13 @@ class LTSpiceLogReader(LogfileData):
             _logger.debug("%d measurements" % len(self.dataset))
             _logger.info("Identified %d steps, read %d measurements" % (self.step_count, self.measure_count))
 
-    def export_data(self, export_file: str, encoding=None, append_with_line_prefix=None):
+    def export_data(self, export_file: str, encoding=None, append_with_line_prefix=None,
+                    value_separator: str = '\t', line_terminator: str = '\n'):
         """Aside from exporting the data, it also exports fourier data if it exists"""
-        super().export_data(export_file, encoding, append_with_line_prefix)
+        super().export_data(export_file, encoding, append_with_line_prefix, value_separator, line_terminator)
+
+        if encoding is None:
+            encoding = self.encoding
 
         fourier_export_file = os.path.splitext(export_file)[0] + "_fourier.txt"
         if self.fourier:
@@ -499,7 +503,7 @@ class LTSpiceLogReader(LogfileData):
                             for analysis in self.fourier[signal]:
                                 if analysis.step == step_no:
                                     fout.write('\t'.join(step_values) + '\t')
-                                    if analysis.n_periods < 1:
+                                    if analysis.n_periods == -1:
                                         n_periods = 'all'
                                     else:
                                         n_periods = analysis.n_periods
@@ -524,7 +528,8 @@ class LTSpiceLogReader(LogfileData):
                                        f"{analysis.phd}\t"
                                        f"{analysis.thd}\n")
                 fout.write("\n\nHarmonic Analysis\n")
-                fout.write("\t".join(self.stepset.keys()) + "\t")
+                if self.step_count > 0:
+                    fout.write("\t".join(self.stepset.keys()) + "\t")
                 fout.write("Signal\tN-Periods\tHarmonic\tFrequency\tFourier\tNormalized\tPhase\tNormalized\n")
                 for signal in self.fourier:
                     for analysis in self.fourier[signal]:
-- 
2.43.0


From 4a444cccf054a6039716d9c30ebdbf42a8612bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:38 +0000
Subject: [PATCH 064/142] fix: tolerance analyses play new instructions once,
 keep measurements added before an analysis and log values aligned

---
 spicelib/sim/tookit/sim_analysis.py | 34 ++++++++++++++---------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/spicelib/sim/tookit/sim_analysis.py b/spicelib/sim/tookit/sim_analysis.py
index 55bc58e..a460a17 100644
--- a/spicelib/sim/tookit/sim_analysis.py
+++ b/spicelib/sim/tookit/sim_analysis.py
@@ -55,7 +55,7 @@ class SimAnalysis:
         self.simulations = []
         self.last_run_number = 0
         self.received_instructions = []
-        self.instructions_added = False
+        self.instructions_played = 0  # Number of received instructions that are already in the netlist
         self.log_data = LogfileData()
 
     def clear_simulation_data(self):
@@ -111,7 +111,7 @@ class SimAnalysis:
         user. This is useful for the case where the user wants to run multiple simulations with different parameters
         without having to add the instructions again."""
         self.editor.reset_netlist()
-        self.instructions_added = False
+        self.instructions_played = 0
 
     def set_component_value(self, ref: str, new_value: str):
         self.received_instructions.append(('set_component_value', ref, new_value))
@@ -132,9 +132,7 @@ class SimAnalysis:
         self.received_instructions.append(('remove_Xinstruction', search_pattern))
 
     def play_instructions(self):
-        if self.instructions_added:
-            return  # Nothing to do
-        for instruction in self.received_instructions:
+        for instruction in self.received_instructions[self.instructions_played:]:
             if instruction[0] == 'set_component_value':
                 self.editor.set_component_value(instruction[1], instruction[2])
             elif instruction[0] == 'set_element_model':
@@ -149,7 +147,7 @@ class SimAnalysis:
                 self.editor.remove_Xinstruction(instruction[1])
             else:
                 raise ValueError("Unknown instruction")
-        self.instructions_added = True
+        self.instructions_played = len(self.received_instructions)
 
     def save_netlist(self, filename: str):
         self.play_instructions()
@@ -191,16 +189,18 @@ class SimAnalysis:
         if log_data is None:
             return
 
-        for param in log_data.stepset:
-            if param not in self.log_data.stepset:
-                self.log_data.stepset[param] = log_data.stepset[param]
-            else:
-                self.log_data.stepset[param].extend(log_data.stepset[param])
-        for param in log_data.dataset:
-            if param not in self.log_data.dataset:
-                self.log_data.dataset[param] = log_data.dataset[param][:]
-            else:
-                self.log_data.dataset[param].extend(log_data.dataset[param][:])
+        def number_of_rows(log: LogfileData) -> int:
+            return max((len(values) for values in [*log.stepset.values(), *log.dataset.values()]), default=0)
+
+        # What a log doesn't have is filled with None. This way all the lists continue aligned with each other.
+        rows_before = number_of_rows(self.log_data)
+        new_rows = number_of_rows(log_data)
+        for total, new in ((self.log_data.stepset, log_data.stepset), (self.log_data.dataset, log_data.dataset)):
+            for param in new:
+                total.setdefault(param, [None] * rows_before)
+            for param in total:
+                values = new.get(param, [])
+                total[param] = total[param] + values + [None] * (new_rows - len(values))
         self.log_data.step_count += log_data.step_count
 
     def read_logfiles(self) -> LogfileData:
@@ -217,4 +217,4 @@ class SimAnalysis:
 
     def configure_measurement(self, meas_name: str, meas_expression: str, meas_type: str = 'tran'):
         """Configures a measurement to be done in the simulation"""
-        self.editor.add_instruction(f".meas {meas_type} {meas_name} {meas_expression}")
+        self.add_instruction(f".meas {meas_type} {meas_name} {meas_expression}")
-- 
2.43.0


From 8c21b38b33cc8f3ce0ba82cded16ccfec02b02c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:38 +0000
Subject: [PATCH 065/142] fix: tolerance analyses start from the netlist with
 the user's instructions, leave no deviations on it, and worst-case bits set
 to 1 are maximums

---
 spicelib/sim/tookit/fast_worst_case.py        |  8 +++----
 spicelib/sim/tookit/montecarlo.py             |  5 ++++-
 .../sim/tookit/quick_sensitivity_analysis.py  | 11 +++++-----
 spicelib/sim/tookit/tolerance_deviations.py   |  7 ++++---
 spicelib/sim/tookit/worst_case.py             | 21 ++++++++++++-------
 5 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/spicelib/sim/tookit/fast_worst_case.py b/spicelib/sim/tookit/fast_worst_case.py
index a540a0b..0788f79 100644
--- a/spicelib/sim/tookit/fast_worst_case.py
+++ b/spicelib/sim/tookit/fast_worst_case.py
@@ -95,6 +95,8 @@ class FastWorstCaseAnalysis(WorstCaseAnalysis):
 
         self.clear_simulation_data()
         self.elements_analysed.clear()
+        self._reset_netlist()  # reset the netlist
+        self.play_instructions()  # play the instructions
         worst_case_elements = {}
 
         def check_and_add_component(ref1: str):
@@ -169,8 +171,6 @@ class FastWorstCaseAnalysis(WorstCaseAnalysis):
 
         _logger.info("Worst Case Analysis: %d elements to be analysed", len(self.elements_analysed))
 
-        self._reset_netlist()  # reset the netlist
-        self.play_instructions()  # play the instructions
         # Simulate the nominal case
         self.run(wait_resource=True,
                  callback=callback, callback_args=callback_args,
@@ -239,7 +239,7 @@ class FastWorstCaseAnalysis(WorstCaseAnalysis):
                 max_setting[ref] = not max_setting[ref]
                 max_value = new_value
                 # Need to restart the cycle
-                iterator = iterator(self.elements_analysed)
+                iterator = iter(self.elements_analysed)
 
             # setting it back to the maximum value
             if max_setting[ref]:
@@ -307,7 +307,7 @@ class FastWorstCaseAnalysis(WorstCaseAnalysis):
 
         self.clear_simulation_data()
         self.cleanup_files()
-        self.reset_netlist()
+        self._reset_netlist()
         self.play_instructions()
 
         return nominal, min_value, max_comp_values, max_value, min_comp_values
diff --git a/spicelib/sim/tookit/montecarlo.py b/spicelib/sim/tookit/montecarlo.py
index 3abaa2e..6b09601 100644
--- a/spicelib/sim/tookit/montecarlo.py
+++ b/spicelib/sim/tookit/montecarlo.py
@@ -69,6 +69,7 @@ class Montecarlo(ToleranceDeviations):
         tol_uni_func = False
         tol_norm_func = False
         self.elements_analysed.clear()
+        self.play_instructions()  # The deviations are applied on the values given by the user
         for ref in self.get_components('*'):
             val, dev = self.get_component_value_deviation_type(ref)  # get there present value
             new_val = val
@@ -90,7 +91,7 @@ class Montecarlo(ToleranceDeviations):
                     val, (dev.max_val + dev.min_val) / 2, (dev.max_val - dev.min_val) / 6)
 
             if new_val != val:  # Only update the value if it has changed
-                self.set_component_value(ref, new_val)  # update the value
+                self.editor.set_component_value(ref, new_val)  # update the value
                 self.elements_analysed.append(ref)
 
         for param in self.parameter_deviations:
@@ -215,6 +216,8 @@ class Montecarlo(ToleranceDeviations):
                           switches=switches, timeout=timeout, exe_log=exe_log)
 
         self.runner.wait_completion()
+        self._reset_netlist()  # the deviations don't stay on the netlist
+        self.play_instructions()
         if callback is not None:
             callback_rets = []
             for rt in self.simulations:
diff --git a/spicelib/sim/tookit/quick_sensitivity_analysis.py b/spicelib/sim/tookit/quick_sensitivity_analysis.py
index 1c266d8..f2e3f99 100644
--- a/spicelib/sim/tookit/quick_sensitivity_analysis.py
+++ b/spicelib/sim/tookit/quick_sensitivity_analysis.py
@@ -33,6 +33,7 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
 
     def prepare_testbench(self, **kwargs):
         """Prepares the simulation by setting the tolerances for each component"""
+        self.play_instructions()  # The deviations are applied on the values given by the user
         no = 0
         self.elements_analysed.clear()
         use_min = kwargs.get('use_min', False)
@@ -46,7 +47,7 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
                 new_val = "{sammx(%s,%g,%d)}" % (val, used_value, no)
 
             if new_val != val:
-                self.set_component_value(comp, new_val)
+                self.editor.set_component_value(comp, new_val)
                 self.elements_analysed.append(comp)
                 no += 1
 
@@ -101,6 +102,8 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
                      ):
         self.clear_simulation_data()
         self.elements_analysed.clear()
+        self._reset_netlist()  # reset the netlist
+        self.play_instructions()  # play the instructions
         # Calculate the number of runs
 
         worst_case_elements = {}
@@ -132,8 +135,6 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
                             "Consider limiting the number of components with deviation")
             return
 
-        self._reset_netlist()  # reset the netlist
-        self.play_instructions()  # play the instructions
         # Add the run number to the measurements by using a parameter
         self.editor.set_parameter('run', -1)  # in case the step is commented.
         self.editor.add_instruction(".meas runm PARAM {run}")
@@ -147,7 +148,6 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
             bit_setting = (2 ** run)
             bit_updated = bit_setting ^ last_bit_setting
             bit_index = 0
-            print("bit updated: %d" % bit_updated)
             while bit_updated != 0:
                 if bit_updated & 1:
                     ref = self.elements_analysed[bit_index]
@@ -165,7 +165,6 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
                         self.editor.set_parameter(ref, new_val)
                     else:
                         _logger.warning("Unknown type")
-                    print(f"{ref} = {new_val}")
                 bit_updated >>= 1
                 bit_index += 1
             self.editor.set_parameter('run', run)
@@ -175,6 +174,8 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
                      switches=switches, timeout=timeout, exe_log=exe_log)
             last_bit_setting = bit_setting
         self.runner.wait_completion()
+        self._reset_netlist()  # the deviations don't stay on the netlist
+        self.play_instructions()
 
         if callback is not None:
             callback_rets = []
diff --git a/spicelib/sim/tookit/tolerance_deviations.py b/spicelib/sim/tookit/tolerance_deviations.py
index 5286c79..baba091 100644
--- a/spicelib/sim/tookit/tolerance_deviations.py
+++ b/spicelib/sim/tookit/tolerance_deviations.py
@@ -87,6 +87,7 @@ class ToleranceDeviations(SimAnalysis, ABC):
         """
         Clears all the settings for the simulation
         """
+        self.default_tolerance = {prefix: ComponentDeviation.none() for prefix in self.devices_with_deviation_allowed}
         self.device_deviations.clear()
         self.parameter_deviations.clear()
         self.testbench_prepared = False
@@ -195,7 +196,6 @@ class ToleranceDeviations(SimAnalysis, ABC):
         """
         if not self.testbench_prepared:
             super()._reset_netlist()
-            self.play_instructions()
             self.prepare_testbench()
         else:
             self.play_instructions()
@@ -220,6 +220,7 @@ class ToleranceDeviations(SimAnalysis, ABC):
                                   run_filename=run_filename, exe_log=exe_log)
             self.simulations.append(sim)
             self.editor.remove_instruction(run_stepping)
+        self.editor.add_instruction(".step param run -1 %d 1" % self.last_run_number)  # puts back the instruction
         self.runner.wait_completion()
         if callback is not None:
             return (sim.get_results() if sim is not None else None for sim in self.simulations)
@@ -246,7 +247,7 @@ class ToleranceDeviations(SimAnalysis, ABC):
                 run_start = self.log_data.stepset['run'][-1] + 1 if len(self.log_data.stepset) > 0 else 0
                 log_results.stepset = {'run': list(range(run_start, run_start + len(any_meas)))}
 
-            log_results.step_count = len(log_results.stepset)
+            log_results.step_count = len(log_results.stepset['run'])
 
         self.add_log_data(log_results)
         return log_results
@@ -273,7 +274,7 @@ class ToleranceDeviations(SimAnalysis, ABC):
                 # will use the size of the first element found in the dataset
                 any_meas = next(iter(self.log_data.dataset.values()))
                 self.log_data.stepset = {'run': list(range(len(any_meas)))}
-            self.log_data.step_count = len(self.log_data.stepset)
+            self.log_data.step_count = len(self.log_data.stepset['run'])
 
         self.simulation_results['log_data'] = self.log_data
         return self.log_data
diff --git a/spicelib/sim/tookit/worst_case.py b/spicelib/sim/tookit/worst_case.py
index a11bcb3..5b12a4c 100644
--- a/spicelib/sim/tookit/worst_case.py
+++ b/spicelib/sim/tookit/worst_case.py
@@ -61,12 +61,13 @@ class WorstCaseAnalysis(ToleranceDeviations):
             new_val = "{wc1(%s,%g,%g,%d)}" % (val, dev.min_val, dev.max_val, index)  # calculate expression for new value
 
         if new_val != val:
-            self.set_component_value(ref, new_val)  # update the value
+            self.editor.set_component_value(ref, new_val)  # update the value
             self.elements_analysed.append(ref)
         return True
 
     def prepare_testbench(self, **kwargs):
         """Prepares the simulation by setting the tolerances for the components"""
+        self.play_instructions()  # The deviations are applied on the values given by the user
         index = 0
         self.elements_analysed.clear()
         for ref in self.device_deviations:
@@ -110,6 +111,8 @@ class WorstCaseAnalysis(ToleranceDeviations):
         The advantage of this method is that it doesn't require adding random functions to the netlist."""
         self.clear_simulation_data()
         self.elements_analysed.clear()
+        self._reset_netlist()  # reset the netlist
+        self.play_instructions()  # play the instructions
         worst_case_elements = {}
 
         def check_and_add_component(ref1: str):
@@ -145,8 +148,6 @@ class WorstCaseAnalysis(ToleranceDeviations):
                             "Consider limiting the number of components with deviation")
             return
 
-        self._reset_netlist()  # reset the netlist
-        self.play_instructions()  # play the instructions
         self.editor.set_parameter('run', -1)  # This is aligned with the testbench preparation
         self.editor.add_instruction(".meas runm PARAM {run}")
         # Simulate the nominal case
@@ -155,7 +156,7 @@ class WorstCaseAnalysis(ToleranceDeviations):
                  switches=switches, timeout=timeout, exe_log=exe_log)
         self.runner.wait_completion()
         # Simulate the worst case
-        last_run = self.last_run_number  # Sets all valid bits to 1
+        last_run = self.last_run_number  # Sets all valid bits to 1, so that all the elements are set on the first run
         for run in range(0, run_count):
             # Preparing the variation on components, but only on the ones that have changed
             bit_updated = run ^ last_run
@@ -165,9 +166,9 @@ class WorstCaseAnalysis(ToleranceDeviations):
                     ref = self.elements_analysed[bit_index]
                     val, dev, typ = worst_case_elements[ref]
                     if dev.typ == DeviationType.tolerance:
-                        new_val = val * (1 - dev.tolerance) if run & (1 << bit_index) else val * (1 + dev.tolerance)
+                        new_val = val * (1 + dev.tolerance) if run & (1 << bit_index) else val * (1 - dev.tolerance)
                     elif dev.typ == DeviationType.minmax:
-                        new_val = dev.min_val if run & (1 << bit_index) else dev.max_val
+                        new_val = dev.max_val if run & (1 << bit_index) else dev.min_val
                     else:
                         _logger.warning("Unknown deviation type")
                         new_val = val
@@ -187,6 +188,8 @@ class WorstCaseAnalysis(ToleranceDeviations):
                      switches=switches, timeout=timeout, exe_log=exe_log)
             last_run = run
         self.runner.wait_completion()
+        self._reset_netlist()  # the deviations don't stay on the netlist
+        self.play_instructions()
 
         if callback is not None:
             callback_rets = []
@@ -206,7 +209,7 @@ class WorstCaseAnalysis(ToleranceDeviations):
         if meas_data is None:
             _logger.warning("Measurement %s not found in log files", meas_name)
             return None
-        elif len(meas_data) != len(self.simulations):
+        elif len(meas_data) != len(self.simulations) or None in meas_data:
             _logger.warning("Missing log files. Results may not be reliable. Probable cause are:\n"
                             "  - Failed simulations.\n"
                             "  - Measurement couldn't be done in simulation results.")
@@ -253,6 +256,8 @@ class WorstCaseAnalysis(ToleranceDeviations):
                 idx = self.elements_analysed.index(ref_)
                 sensitivities[ref_] = diff_for_a_ref(wc_data, idx)
             total = sum(sens[0] for sens in sensitivities.values())
+            if total == 0:
+                total = float('inf')  # nothing affects the measurement. All the sensitivities are 0%
 
             # Calculate the sensitivity for each component if ref is '*'
             # Return the sensitivity as a percentage of the total error
@@ -267,7 +272,7 @@ class WorstCaseAnalysis(ToleranceDeviations):
             else:
                 # Calculates the sensitivity for the given component
                 sens, sigma = sensitivities[ref]
-                return sens /total * 100, sigma / total * 100
+                return sens / total * 100, sigma / total * 100
         else:
             _logger.warning("The analysis was not executed. Please run the run_analysis(...) or run_testbench(...)"
                             " before calling this method")
-- 
2.43.0


From 8837448aa8bc9a42146a9b0725e5d68dbfa12e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:38 +0000
Subject: [PATCH 066/142] fix: Monte Carlo testbench functions are complete,
 defined when used and centred on the given limits

---
 spicelib/sim/tookit/montecarlo.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/spicelib/sim/tookit/montecarlo.py b/spicelib/sim/tookit/montecarlo.py
index 6b09601..3db762d 100644
--- a/spicelib/sim/tookit/montecarlo.py
+++ b/spicelib/sim/tookit/montecarlo.py
@@ -74,7 +74,7 @@ class Montecarlo(ToleranceDeviations):
             val, dev = self.get_component_value_deviation_type(ref)  # get there present value
             new_val = val
             if dev.typ == DeviationType.tolerance:
-                tolstr = ('%g' % dev.tolerance).rstrip('0').rstrip('.')
+                tolstr = '%g' % dev.tolerance
                 if dev.distribution == 'uniform':
                     new_val = "{utol(%s,%s)}" % (val, tolstr)  # calculate expression for new value
                     tol_uni_func = True
@@ -89,6 +89,7 @@ class Montecarlo(ToleranceDeviations):
                 elif dev.distribution == 'normal':
                     new_val = "{nrng(%s,%g,%g)}" % (
                     val, (dev.max_val + dev.min_val) / 2, (dev.max_val - dev.min_val) / 6)
+                    min_max_norm_func = True
 
             if new_val != val:  # Only update the value if it has changed
                 self.editor.set_component_value(ref, new_val)  # update the value
@@ -102,7 +103,7 @@ class Montecarlo(ToleranceDeviations):
                     new_val = "{utol(%s,%g)}" % (val, dev.tolerance)
                     tol_uni_func = True
                 elif dev.distribution == 'normal':
-                    new_val = "{ntol(%g,%g)}" % (val, dev.tolerance)
+                    new_val = "{ntol(%s,%g)}" % (val, dev.tolerance)
                     tol_norm_func = True
             elif dev.typ == DeviationType.minmax:
                 if dev.distribution == 'uniform':
@@ -127,7 +128,7 @@ class Montecarlo(ToleranceDeviations):
                 self.editor.add_instruction(".func urng(nom,mean,df2) if(run<0, nom, mean+flat(df2))")
 
             if min_max_norm_func:
-                self.editor.add_instruction(".func nrng(nom,mean,df6) if(run<0, nom, mean*(1+gauss(df6)))")
+                self.editor.add_instruction(".func nrng(nom,mean,df6) if(run<0, nom, mean+gauss(df6))")
         elif self.runner.simulator.__name__ == 'Qspice':
             # if gauss function is needed
             #  => This is finally not needed because Qspice has a built-in gauss function (non-documented)
@@ -141,10 +142,10 @@ class Montecarlo(ToleranceDeviations):
                 self.editor.add_instruction(".func ntol(nom,tol) {if(run<0, nom, nom*(1+gauss(tol/3)))}")
 
             if min_max_uni_func:
-                self.editor.add_instruction(".func urng(nom,mean,df2) if(run<0, nom, mean+(df2*(2*random()-1))")
+                self.editor.add_instruction(".func urng(nom,mean,df2) if(run<0, nom, mean+df2*(2*random()-1))")
 
             if min_max_norm_func:
-                self.editor.add_instruction(".func nrng(nom,mean,df6) if(run<0, nom, mean*(1+gauss(df6)))")
+                self.editor.add_instruction(".func nrng(nom,mean,df6) if(run<0, nom, mean+gauss(df6))")
         else:
             _logger.warning("Simulator not supported for this method")
             raise NotImplementedError("Simulator not supported for this method")
-- 
2.43.0


From 851f63d0d609e72a285876d38a1ab306c1fff4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:38 +0000
Subject: [PATCH 067/142] fix: sensitivity testbench includes the parameters
 and skips elements without deviation

---
 spicelib/sim/tookit/quick_sensitivity_analysis.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/spicelib/sim/tookit/quick_sensitivity_analysis.py b/spicelib/sim/tookit/quick_sensitivity_analysis.py
index f2e3f99..e8538b2 100644
--- a/spicelib/sim/tookit/quick_sensitivity_analysis.py
+++ b/spicelib/sim/tookit/quick_sensitivity_analysis.py
@@ -39,6 +39,8 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
         use_min = kwargs.get('use_min', False)
         for comp in self.get_components('*'):
             val, dev = self.get_component_value_deviation_type(comp)
+            if dev.is_not_valid():
+                continue  # no need to set the deviation
             new_val = val
             if dev.typ == DeviationType.tolerance:
                 new_val = "{satol(%s,%g,%d)}" % (val, dev.tolerance, no)
@@ -51,6 +53,13 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
                 self.elements_analysed.append(comp)
                 no += 1
 
+        for param in self.parameter_deviations:
+            val, dev = self.get_parameter_value_deviation_type(param)
+            used_value = dev.min_val if use_min else dev.max_val
+            self.editor.set_parameter(param, "{sammx(%s,%g,%d)}" % (val, used_value, no))
+            self.elements_analysed.append(param)
+            no += 1
+
         self.last_run_number = no - 1
         if use_min:
             self.editor.add_instruction(".func satol(nom,tol,idx) nom*if(run==idx,1-tol,1)")
-- 
2.43.0


From 0ceca15752ea13bc2c1d0e561ba26ffcaeb4ce88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:59 +0000
Subject: [PATCH 068/142] fix: vertical texts of LTspice schematics stay
 vertical when they are saved

---
 spicelib/editor/ltspice_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/ltspice_utils.py b/spicelib/editor/ltspice_utils.py
index 1bbf178..a1f67b7 100644
--- a/spicelib/editor/ltspice_utils.py
+++ b/spicelib/editor/ltspice_utils.py
@@ -27,7 +27,7 @@ __copyright__ = "Copyright 2024, Fribourg Switzerland"
 
 # Regular expressions
 TEXT_REGEX = re.compile(
-    r"TEXT (-?\d+)\s+(-?\d+)\s+V?(Left|Right|Top|Bottom|Center|Invisible)\s(\d+)\s*(?P<type>[!;])(?P<text>.*)",
+    r"TEXT (-?\d+)\s+(-?\d+)\s+(V?(?:Left|Right|Top|Bottom|Center|Invisible))\s(\d+)\s*(?P<type>[!;])(?P<text>.*)",
     re.IGNORECASE
 )
 
-- 
2.43.0


From c5d9487e547a526d4aab7522354f90e95781a8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:59 +0000
Subject: [PATCH 069/142] fix: the directions of the ports of LTspice
 schematics are saved

---
 spicelib/editor/asc_editor.py     | 3 +++
 spicelib/editor/base_schematic.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index b356c2c..5cafa3b 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -264,6 +264,9 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
                 asc.write(f"WIRE {wire.V1.X} {wire.V1.Y} {wire.V2.X} {wire.V2.Y}" + END_LINE_TERM)
             for flag in self.labels:
                 asc.write(f"FLAG {flag.coord.X} {flag.coord.Y} {flag.text}" + END_LINE_TERM)
+                for port in self.ports:
+                    if port.text is flag:
+                        asc.write(f"IOPIN {flag.coord.X} {flag.coord.Y} {port.direction}" + END_LINE_TERM)
             for component in self.components.values():
                 symbol = component.symbol
                 posX = component.position.X
diff --git a/spicelib/editor/base_schematic.py b/spicelib/editor/base_schematic.py
index d856984..1123222 100644
--- a/spicelib/editor/base_schematic.py
+++ b/spicelib/editor/base_schematic.py
@@ -299,6 +299,7 @@ class BaseSchematic(BaseEditor):
         self.wires.clear()
         self.labels.clear()
         self.directives.clear()
+        self.ports.clear()
         self.lines.clear()
         self.shapes.clear()
         self.canvas_updated = False
-- 
2.43.0


From 2534285611e1d69269390081f2972ad244ac626f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:59 +0000
Subject: [PATCH 070/142] fix: parameters of LTspice components are edited in
 place, removing them leaves no None or empty attributes

---
 spicelib/editor/asc_editor.py | 92 +++++++++++++++++------------------
 1 file changed, 46 insertions(+), 46 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 5cafa3b..e511399 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -117,6 +117,13 @@ class AscComponent(SchematicComponent):
                             parameters.update(sub_parameters)
         return parameters
 
+    def _find_line_parameter(self, name: str) -> tuple[str | None, re.Match | None]:
+        """Returns the attribute (SpiceLine or SpiceLine2) that has the parameter with the given name and its match."""
+        for attribute in LTSPICE_PARAMETERS_REDUCED:
+            for match in re.finditer(PARAM_REGEX(r'\w+'), self.attributes.get(attribute, ''), re.IGNORECASE):
+                if match.group("name") == name:
+                    return attribute, match
+        return None, None
 
     def set_parameters(self, **kwargs) -> None:
         """
@@ -155,53 +162,46 @@ class AscComponent(SchematicComponent):
                 value_str = value.strip()
             else:
                 value_str = format_eng(value)
-            params = self.get_parameters(as_dicts=True)
-            if key in params:
-                # I only have the LTSPICE_PARAMETERS as keys here, so when I match, I can overwrite
-                # I do not support delete here, as some of the keys are mandatory
-                self.attributes[key] = value_str
-                _logger.info(f"Component {self.reference} updated with parameter {key}:{value}")
-                update_type = UpdateType.UpdateComponentParameter
+            if key.upper() == 'VALUE':
+                key = 'Value'
+                if value_str is None:
+                    _logger.warning(f"The value of component {self.reference} can't be removed")
+                    continue
+            if key in LTSPICE_PARAMETERS:
+                if value_str is None:
+                    if key not in self.attributes:
+                        continue  # there is nothing to remove
+                    del self.attributes[key]
+                    update_type = UpdateType.DeleteComponentParameter
+                else:
+                    if key in self.attributes:
+                        update_type = UpdateType.UpdateComponentParameter
+                    else:
+                        update_type = UpdateType.AddComponentParameter
+                    self.attributes[key] = value_str
             else:
-                foundme = False
-                # not found: look in the second level dicts
-                for param_key in LTSPICE_PARAMETERS_REDUCED:
-                    if param_key in params:
-                        if key in params[param_key]:
-                            # found in the dict
-                            # update the dict
-                            if value_str is None:
-                                # remove if empty
-                                params[param_key].pop(key)
-                                update_type = UpdateType.DeleteComponentParameter
-                            else:
-                                params[param_key][key] = value_str
-                                update_type = UpdateType.UpdateComponentParameter
-                            # and make the line out of the dict
-                            self.attributes[param_key] = ' '.join([f'{p_key}={p_value}' for p_key, p_value in params[param_key].items()])
-                            _logger.info(f"Component {self.reference} updated with parameter {key}:{value_str}")
-                            foundme = True
-                if not foundme:
-                    if value_str is not None:
-                        # don't add if there's nothing to add
-                        if key in LTSPICE_PARAMETERS:
-                            # known parameter, set the value
-                            self.attributes[key] = value_str
-                            _logger.info(f"Component {self.reference} updated with parameter {key}:{value_str}")
-                            update_type = UpdateType.UpdateComponentParameter
-                        else:
-                            # nothing found, and not a known parameter, put it in SpiceLine
-                            param_key = LTSPICE_PARAMETERS_REDUCED[0]
-                            if param_key in params:
-                                # if SpiceLine exists: add to the dict
-                                params[param_key][key] = value_str
-                                # and make the line out of the dict
-                                self.attributes[param_key] = ' '.join([f'{p_key}={p_value}' for p_key, p_value in params[param_key].items()])
-                            else:
-                                # if SpiceLine does not exist: create the line
-                                self.attributes[param_key] = f'{key}={value_str}'
-                            update_type = UpdateType.AddComponentParameter
-                            _logger.info(f"Component {self.reference} added parameter {key}:{value_str}")
+                # not one of the attributes: look inside SpiceLine and SpiceLine2
+                param_key, match = self._find_line_parameter(key)
+                if match:
+                    line = self.attributes[param_key]
+                    if value_str is None:
+                        line = f"{line[:match.start()].rstrip()} {line[match.end():].lstrip()}".strip()
+                        update_type = UpdateType.DeleteComponentParameter
+                    else:
+                        line = f"{line[:match.start()]}{key}={value_str}{line[match.end():]}"
+                        update_type = UpdateType.UpdateComponentParameter
+                    if line:
+                        self.attributes[param_key] = line
+                    else:
+                        del self.attributes[param_key]
+                elif value_str is None:
+                    continue  # there is nothing to remove
+                else:
+                    # nothing found, and not a known parameter, put it in SpiceLine
+                    param_key = LTSPICE_PARAMETERS_REDUCED[0]
+                    self.attributes[param_key] = f"{self.attributes.get(param_key, '')} {key}={value_str}".strip()
+                    update_type = UpdateType.AddComponentParameter
+            _logger.info(f"Component {self.reference} updated with parameter {key}:{value_str}")
             parent.end_update(f"{self.reference}:{key}", value_str, update_type)
 
 
-- 
2.43.0


From e63aed4d9ebbf6e621cd9ecc524c83e38ec589fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:59 +0000
Subject: [PATCH 071/142] fix: attributes set on components of LTspice
 schematics are read back and saved

---
 spicelib/editor/asc_editor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index e511399..826dea9 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -620,6 +620,13 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         component.symbol = model
         _logger.info(f"Component {element} updated to {model}")
 
+    def set_component_attribute(self, reference: str, attribute: str, value: str) -> None:
+        # docstring inherited from BaseSubCircuit
+        if self.begin_update() == UpdatePermission.Deny:
+            raise PermissionError(f"Permission denied for attribute {attribute} of component {reference}")
+        self.get_component(reference).attributes[attribute] = value
+        self.end_update(f"{reference}:{attribute}", value, UpdateType.UpdateComponentParameter)
+
     def get_component_value(self, element: str) -> str:
         component = self.get_component(element)
         value_str = component.get_value_str()
-- 
2.43.0


From 6fc8304d5551e293b02a42f468e0a886fc250326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:59 +0000
Subject: [PATCH 072/142] fix: removing a component that does not exist raises
 ComponentNotFoundError in LTspice schematics

---
 spicelib/editor/asc_editor.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 826dea9..43e95b4 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -674,10 +674,15 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         return [k for k in self.components.keys() if k[0] in prefixes]
 
     def remove_component(self, designator: str):
-        self.begin_update()
         sub_circuit, ref = self._get_parent(designator)
-        del sub_circuit.components[ref]
-        sub_circuit.end_update(designator, "", UpdateType.DeleteComponent)
+        if sub_circuit != self:
+            sub_circuit.remove_component(ref)
+            return
+        if self.begin_update() == UpdatePermission.Deny:
+            raise PermissionError(f"Permission denied for removing component {designator}")
+        self.get_component(ref)  # raises an exception if it doesn't exist
+        del self.components[ref]
+        self.end_update(ref, "", UpdateType.DeleteComponent)
 
     def _get_text_space(self):
         """
-- 
2.43.0


From 8b6bcf5fad72d3ade61f6729c4b837377e4fe66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:36 +0000
Subject: [PATCH 073/142] fix: parameters of LTspice schematics are found in
 directives with several lines, and can be removed

---
 spicelib/editor/asc_editor.py  | 66 ++++++++++++++++++++++------------
 spicelib/editor/base_editor.py |  6 ++--
 2 files changed, 48 insertions(+), 24 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 43e95b4..3b380d3 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -46,6 +46,8 @@ _logger = logging.getLogger("spicelib.AscEditor")
 
 LTSPICE_PARAMETERS = ("Value", "Value2", "SpiceModel", "SpiceLine", "SpiceLine2")
 LTSPICE_PARAMETERS_REDUCED = ("SpiceLine", "SpiceLine2")
+# A statement of a directive with its continuation lines
+STATEMENT_REGEX = re.compile(r"[^\n]+(?:\n[ \t]*\+[^\n]*)*")
 LTSPICE_ATTRIBUTES = ("InstName", "Def_Sub")
 
 
@@ -535,37 +537,37 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         component.position = position
         component.rotation = rotation
 
-    def _get_param_named(self, param_name):
-        param_name_uppercase = param_name.upper()
+    def _find_parameters(self):
+        """Iterates over the parameters of the schematic. Gives the directive, the statement of the directive and the
+        parameter found in it. The last two are regular expression matches."""
         for directive in self.directives:
             if directive.type == TextTypeEnum.COMMENT:
-                continue  # this is a comment, skip it            
-            if directive.text.upper().startswith(".PARAM"):
-                for match in find_parameters(directive.text):
-                    if match.group("name").upper() == param_name_uppercase:
-                        return match, directive
-        return None, None
-    
+                continue  # this is a comment, skip it
+            text = directive.text.replace(r'\n', ' \n')  # line breaks are written as \n. All positions are kept
+            for statement in STATEMENT_REGEX.finditer(text):
+                if statement.group().lstrip().upper().startswith(".PARAM"):
+                    for match in find_parameters(text, *statement.span()):
+                        yield directive, statement, match
+
+    def _get_param_named(self, param_name):
+        param_name_uppercase = param_name.upper()
+        for directive, statement, match in self._find_parameters():
+            if match.group("name").upper() == param_name_uppercase:
+                return match, statement, directive
+        return None, None, None
+
     def get_all_parameter_names(self) -> list[str]:
         # docstring inherited from BaseEditor
-        param_names = []
-        for directive in self.directives:
-            if directive.type == TextTypeEnum.COMMENT:
-                continue  # this is a comment, skip it
-            if directive.text.upper().startswith(".PARAM"):
-                for match in find_parameters(directive.text):
-                    param_name = match.group('name')
-                    param_names.append(param_name.upper())
-        return sorted(param_names)
+        return sorted(match.group('name').upper() for _, _, match in self._find_parameters())
     
     def get_parameter(self, param: str) -> str:
-        match, directive = self._get_param_named(param)
+        match, _, _ = self._get_param_named(param)
         if match:
             return match.group('value')
         else:
             raise ParameterNotFoundError(param, "ASC file")
 
-    def set_parameter(self, param: str, value: str | int | float) -> None:
+    def set_parameter(self, param: str, value: str | int | float | None) -> None:
         permission = self.begin_update()
         if permission == UpdatePermission.Deny:
             raise PermissionError(f"Permission denied for {param}")
@@ -575,8 +577,13 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         else:
             value_str = value
 
-        match, directive = self._get_param_named(param) # pyright: ignore[reportAssignmentType]
-        if match:
+        match, statement, directive = self._get_param_named(param) # pyright: ignore[reportAssignmentType]
+        if value is None:
+            if match:
+                self._remove_parameter(directive, statement, match)
+                _logger.info(f"Parameter {param} removed")
+                self.end_update(param, None, UpdateType.DeleteParameter)
+        elif match:
             directive : Text
             _logger.debug(f"Parameter {param} found in ASC file, updating it")
             start, stop = match.span('value')
@@ -594,6 +601,21 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
             self.directives.append(directive)
             self.end_update(param, value, UpdateType.AddParameter)
 
+    def _remove_parameter(self, directive: Text, statement: re.Match, match: re.Match) -> None:
+        """Removes a parameter from a directive. The statement and the directive are removed if they become empty."""
+        start, stop = match.span()
+        if len(list(find_parameters(match.string, *statement.span()))) == 1:
+            start, stop = statement.span()
+            if match.string[stop:stop + 1] == '\n':
+                stop += 1
+        text = directive.text[:start] + directive.text[stop:].lstrip(' ')
+        if stop == len(directive.text):
+            text = text.rstrip(' ').removesuffix(r'\n')
+        if text:
+            directive.text = text
+        else:
+            self.directives.remove(directive)
+
     def set_component_value(self, device: str, value: ValueType) -> None:
         """
         Sets the value of the component
diff --git a/spicelib/editor/base_editor.py b/spicelib/editor/base_editor.py
index 386826e..60841b8 100644
--- a/spicelib/editor/base_editor.py
+++ b/spicelib/editor/base_editor.py
@@ -49,13 +49,15 @@ def PARAM_REGEX(pname):
 _PARAM_OR_COMMENT = re.compile(r";[^\r\n]*|" + PARAM_REGEX(r"\w+"), re.IGNORECASE)
 
 
-def find_parameters(text: str) -> Iterator[re.Match]:
+def find_parameters(text: str, start: int = 0, stop: int | None = None) -> Iterator[re.Match]:
     """Iterates over the parameter definitions (name=value) of a .PARAM line, skipping the comments.
     Each match has the groups 'name' and 'value'.
 
     :meta private:
     """
-    return (match for match in _PARAM_OR_COMMENT.finditer(text) if match.group('name'))
+    if stop is None:
+        stop = len(text)
+    return (match for match in _PARAM_OR_COMMENT.finditer(text, start, stop) if match.group('name'))
 
 
 class BaseEditor(ABC):
-- 
2.43.0


From dd54d25a531a062559dc4e9235e246280be67709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:37 +0000
Subject: [PATCH 074/142] fix: values and parameters assigned by key, and
 cleared, on components are recorded and saved

---
 spicelib/editor/asc_editor.py |  4 ++++
 spicelib/editor/primitives.py | 17 +++++------------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 3b380d3..328c429 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -127,6 +127,10 @@ class AscComponent(SchematicComponent):
                     return attribute, match
         return None, None
 
+    def set_parameter(self, key: str, value: float | int | str | None) -> None:
+        # docstring inherited from Component
+        self.set_parameters(**{key: value})
+
     def set_parameters(self, **kwargs) -> None:
         """
         Sets the parameters of a component that are related with Spice operation.
diff --git a/spicelib/editor/primitives.py b/spicelib/editor/primitives.py
index d37a4ea..1e467bc 100644
--- a/spicelib/editor/primitives.py
+++ b/spicelib/editor/primitives.py
@@ -209,9 +209,7 @@ class Component(Primitive):
 
     def __setitem__(self, key, value):
         if key in VALUE_IDs:
-            if isinstance(value, str):
-                value = to_float(value, accept_invalid=True)
-            self.attributes['value'] = value
+            self.set_value(value)
         else:
             self.set_parameter(key, value)
 
@@ -280,20 +278,15 @@ class Component(Primitive):
         self.attributes['params'] = params  # This instruction is only needed if params was empty before
 
     def clear_parameters(self):
-        """Clears all parameters. It will set all existing parameters to None. This will delete them when writing
-        back to file."""
-        params = self.get_parameters()
-        if params:
-            for key in params:
-                params[key] = None
+        """Clears all parameters."""
+        for key in list(self.get_parameters()):
+            self.clear_parameter(key)
 
     def clear_parameter(self, key: str):
         """Clears a parameter.
         :param key:  name
         """
-        if 'params' not in self._attributes:
-            self._attributes['params'] = OrderedDict()
-        self._attributes['params'][key] = None
+        self.set_parameter(key, None)
 
     # Aliases for parameter functions
     def clear_param(self):
-- 
2.43.0


From 1495d421067d51ac170b3822ed9efb98f10b5995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 075/142] fix: records of QSPICE schematics with ': ' in their
 texts are read

---
 spicelib/editor/qsch_editor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index d8b425f..d9a73f4 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -232,8 +232,8 @@ class QschTag:
             raise OSError("Missing » when reading file")
         line = stream[i0:i]
         # Now dividing the
-        if ': ' in line:
-            name, text = line.split(': ')
+        name, separator, text = line.partition(': ')
+        if separator and '"' not in name:  # a label and its text. What is between quotes is not a label.
             self.tokens.append(name + ":")
             self.tokens.append(text)
         else:
-- 
2.43.0


From c39c8aee46fae2800632387808504b1574503965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 076/142] fix: components of QSPICE schematics can be placed
 with an ERotation or mirrored, and are saved where they were placed

---
 spicelib/editor/qsch_editor.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index d9a73f4..a5cea35 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -545,18 +545,17 @@ class QschComponent(SchematicComponent):
         else:
             raise ValueError("Invalid position object")
         if isinstance(rotation, ERotation):
-            rot = rotation.value / 45
+            pass
         elif isinstance(rotation, int):
-            rot = (rotation % 360) // 45
-            if mirror:
-                rot += 8
+            rotation = ERotation(rotation % 360 // 45 * 45 + (ERotation.M0 if mirror else 0))
         else:
             raise ValueError("Invalid rotation parameter")
 
         comp_tag.set_attr(QSCH_COMPONENT_POS, (position.X, position.Y))
-        comp_tag.set_attr(QSCH_COMPONENT_ROTATION, rot)
+        comp_tag.set_attr(QSCH_COMPONENT_ROTATION, rotation.value // 45)
         self.position = position
-        self.rotation = rotation if isinstance(rotation, ERotation) else ERotation(rotation)
+        self.rotation = rotation
+        self.parent.canvas_updated = True
 
 
 class QschEditor(BaseSchematic, BaseSubCircuit):
-- 
2.43.0


From 822b3bfd724c965ec134d92a01713aad73e6ac0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 077/142] fix: parameters of QSPICE components are not searched
 in their value, and leave no empty text when removed

---
 spicelib/editor/qsch_editor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index a5cea35..2184b4e 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -474,9 +474,10 @@ class QschComponent(SchematicComponent):
                     reference : str = self.reference # pyright: ignore[reportAssignmentType]
                     parent.end_update(reference, value_str, UpdateType.UpdateComponentParameter)
             else:
+                # The first texts are the reference and the value. The others may have parameters
                 found = False
                 search_expression = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
-                for text in texts[QSCH_SYMBOL_TEXT_VALUE:]:
+                for text in texts[QSCH_SYMBOL_TEXT_VALUE + 1:]:
                     text_value: str = text.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
 
                     for match in search_expression.finditer(text_value):
@@ -484,12 +485,12 @@ class QschComponent(SchematicComponent):
                             if value is None:
                                 # Remove the entire parameter definition from the text
                                 start, stop = match.span()
-                                if stop - start == len(text_value):
+                                text_value = f"{text_value[:start].rstrip()} {text_value[stop:].lstrip()}".strip()
+                                if not text_value:
                                     # The whole tag needs to be deleted
                                     symbol.items.remove(text)
                                 else:
                                     # delete only the parameter definition
-                                    text_value = text_value[:start] + text_value[stop:]
                                     text.set_attr(QSCH_TEXT_STR_ATTR, text_value)
                                 update = UpdateType.DeleteComponentParameter
                             else:
-- 
2.43.0


From 911f5d5312ca67863ca2715cdb3c5c11e60ddcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 078/142] fix: components removed from QSPICE schematics are
 gone, those of sub-circuits can be removed

---
 spicelib/editor/qsch_editor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 2184b4e..7174907 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -1205,12 +1205,17 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
 
     def remove_component(self, designator: str):
         # docstring inherited from BaseEditor
+        sub_circuit, ref = self._get_parent(designator)
+        if sub_circuit != self:
+            sub_circuit.remove_component(ref)
+            return
         permission = self.begin_update()
         if permission == UpdatePermission.Deny:
             raise PermissionError(f"Permission denied for removing component {designator}")
         component = self.get_component(designator)
         comp_tag: QschTag = component.attributes['tag']
         self.schematic.items.remove(comp_tag) # pyright: ignore[reportOptionalMemberAccess]
+        del self.components[designator]
         self.end_update(designator, None, UpdateType.DeleteComponent)
 
     def _get_text_space(self):
-- 
2.43.0


From f0d7132c83b047e014bf7052c0c0c6586bd25145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:55 +0000
Subject: [PATCH 079/142] fix: parameters of QSPICE schematics are found in
 texts with several lines, and can be removed

---
 spicelib/editor/asc_editor.py  | 30 ++++------------
 spicelib/editor/base_editor.py | 34 ++++++++++++++++++
 spicelib/editor/qsch_editor.py | 63 +++++++++++++++++-----------------
 3 files changed, 72 insertions(+), 55 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 328c429..eca2230 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -35,7 +35,7 @@ from ..simulators.ltspice_simulator import LTspice
 from ..utils.file_search import search_file_in_containers
 from .primitives import format_eng
 from .editor_errors import ComponentNotFoundError, ParameterNotFoundError, ValueNotFoundError
-from .base_editor import PARAM_REGEX, ValueType, find_parameters
+from .base_editor import PARAM_REGEX, ValueType, find_text_parameters, remove_text_parameter
 from .base_schematic import (BaseSchematic, Point, Line, Shape, Text, SchematicComponent, ERotation, TextTypeEnum, Port)
 from .asy_reader import AsyReader
 
@@ -46,8 +46,6 @@ _logger = logging.getLogger("spicelib.AscEditor")
 
 LTSPICE_PARAMETERS = ("Value", "Value2", "SpiceModel", "SpiceLine", "SpiceLine2")
 LTSPICE_PARAMETERS_REDUCED = ("SpiceLine", "SpiceLine2")
-# A statement of a directive with its continuation lines
-STATEMENT_REGEX = re.compile(r"[^\n]+(?:\n[ \t]*\+[^\n]*)*")
 LTSPICE_ATTRIBUTES = ("InstName", "Def_Sub")
 
 
@@ -547,11 +545,8 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         for directive in self.directives:
             if directive.type == TextTypeEnum.COMMENT:
                 continue  # this is a comment, skip it
-            text = directive.text.replace(r'\n', ' \n')  # line breaks are written as \n. All positions are kept
-            for statement in STATEMENT_REGEX.finditer(text):
-                if statement.group().lstrip().upper().startswith(".PARAM"):
-                    for match in find_parameters(text, *statement.span()):
-                        yield directive, statement, match
+            for statement, match in find_text_parameters(directive.text):
+                yield directive, statement, match
 
     def _get_param_named(self, param_name):
         param_name_uppercase = param_name.upper()
@@ -584,7 +579,9 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         match, statement, directive = self._get_param_named(param) # pyright: ignore[reportAssignmentType]
         if value is None:
             if match:
-                self._remove_parameter(directive, statement, match)
+                directive.text = remove_text_parameter(directive.text, statement, match)
+                if not directive.text:
+                    self.directives.remove(directive)
                 _logger.info(f"Parameter {param} removed")
                 self.end_update(param, None, UpdateType.DeleteParameter)
         elif match:
@@ -605,21 +602,6 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
             self.directives.append(directive)
             self.end_update(param, value, UpdateType.AddParameter)
 
-    def _remove_parameter(self, directive: Text, statement: re.Match, match: re.Match) -> None:
-        """Removes a parameter from a directive. The statement and the directive are removed if they become empty."""
-        start, stop = match.span()
-        if len(list(find_parameters(match.string, *statement.span()))) == 1:
-            start, stop = statement.span()
-            if match.string[stop:stop + 1] == '\n':
-                stop += 1
-        text = directive.text[:start] + directive.text[stop:].lstrip(' ')
-        if stop == len(directive.text):
-            text = text.rstrip(' ').removesuffix(r'\n')
-        if text:
-            directive.text = text
-        else:
-            self.directives.remove(directive)
-
     def set_component_value(self, device: str, value: ValueType) -> None:
         """
         Sets the value of the component
diff --git a/spicelib/editor/base_editor.py b/spicelib/editor/base_editor.py
index 60841b8..ee9c798 100644
--- a/spicelib/editor/base_editor.py
+++ b/spicelib/editor/base_editor.py
@@ -60,6 +60,40 @@ def find_parameters(text: str, start: int = 0, stop: int | None = None) -> Itera
     return (match for match in _PARAM_OR_COMMENT.finditer(text, start, stop) if match.group('name'))
 
 
+# A statement with its continuation lines
+_STATEMENT = re.compile(r"[^\n]+(?:\n[ \t]*\+[^\n]*)*")
+
+
+def find_text_parameters(text: str) -> Iterator[tuple[re.Match, re.Match]]:
+    """Iterates over the parameters defined in a text of a schematic, where line breaks are written as \\n.
+    Gives the match of the .PARAM statement, and the match of the parameter, the same as find_parameters().
+
+    :meta private:
+    """
+    text = text.replace(r'\n', ' \n')  # All the positions are kept
+    for statement in _STATEMENT.finditer(text):
+        if statement.group().lstrip().upper().startswith('.PARAM'):
+            for match in find_parameters(text, *statement.span()):
+                yield statement, match
+
+
+def remove_text_parameter(text: str, statement: re.Match, match: re.Match) -> str:
+    """Removes a parameter found with find_text_parameters() from the text, and its statement if nothing is left in it.
+
+    :meta private:
+    """
+    start, stop = match.span()
+    if len(list(find_parameters(match.string, *statement.span()))) == 1:
+        start, stop = statement.span()
+        if match.string[stop:stop + 1] == '\n':
+            stop += 1
+    at_end = stop == len(text)
+    text = text[:start] + text[stop:].lstrip(' ')
+    if at_end:
+        text = text.rstrip(' ').removesuffix(r'\n')
+    return text
+
+
 class BaseEditor(ABC):
     """
     This defines the primitives (protocol) to be used for both SpiceEditor and AscEditor
diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 7174907..e76688d 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -27,7 +27,7 @@ import logging
 from .base_subcircuit import BaseSubCircuit
 from .primitives import format_eng
 from .editor_errors import ComponentNotFoundError, ParameterNotFoundError, ValueNotFoundError
-from .base_editor import PARAM_REGEX, ValueType, find_parameters
+from .base_editor import PARAM_REGEX, ValueType, find_text_parameters, remove_text_parameter
 from .spice_utils import UNIQUE_SIMULATION_DOT_INSTRUCTIONS
 from .base_schematic import (BaseSchematic, SchematicComponent, Point, ERotation, Line, Text, TextTypeEnum,
                              LineStyle, Shape)
@@ -1032,35 +1032,27 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             self.lines.append(line)
         self.update_permission = UpdatePermission.Inform
 
-    def _get_param_named(self, param_name):
-        param_name_upped = param_name.upper()
+    def _find_parameters(self):
+        """Iterates over the parameters of the schematic. Gives the tag of the text, its text without the qualifier, the
+        statement of the text and the parameter found in it. The last two are regular expression matches."""
         text_tags = self.schematic.get_items('text')  # pyright: ignore[reportOptionalMemberAccess] # Connection to directives and comments
         for tag in text_tags:
             if tag.get_attr(QSCH_TEXT_COMMENT) == 1:  # if it is a comment, we ignore it
                 continue
-            line: str = tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
-            line = line.lstrip(QSCH_TEXT_INSTR_QUALIFIER)
-            if line.upper().startswith('.PARAM'):
-                for match in find_parameters(line):
-                    if match.group("name").upper() == param_name_upped:
-                        return tag, match
-        else:
-            return None, None
-        
+            text: str = tag.get_attr(QSCH_TEXT_STR_ATTR).removeprefix(QSCH_TEXT_INSTR_QUALIFIER) # pyright: ignore[reportAttributeAccessIssue]
+            for statement, match in find_text_parameters(text):
+                yield tag, text, statement, match
+
+    def _get_param_named(self, param_name):
+        param_name_upped = param_name.upper()
+        for tag, text, statement, match in self._find_parameters():
+            if match.group("name").upper() == param_name_upped:
+                return tag, text, statement, match
+        return None, None, None, None
+
     def get_all_parameter_names(self) -> list[str]:
         # docstring inherited from BaseEditor
-        param_names = []
-        text_tags = self.schematic.get_items('text') # pyright: ignore[reportOptionalMemberAccess] # Connection to directives and comments
-        for tag in text_tags:
-            if tag.get_attr(QSCH_TEXT_COMMENT) == 1:  # if it is a comment, we ignore it
-                continue
-            line: str = tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
-            line = line.lstrip(QSCH_TEXT_INSTR_QUALIFIER)
-            if line.upper().startswith('.PARAM'):
-                for match in find_parameters(line):
-                    param_name = match.group('name')
-                    param_names.append(param_name.upper())
-        return sorted(param_names)
+        return sorted(match.group('name').upper() for _, _, _, match in self._find_parameters())
 
     def _qsch_file_find(self, filename: str, work_dir: str | None = None) -> str | None:
         containers = ['.'] + self.custom_lib_paths + self.simulator_lib_paths
@@ -1085,13 +1077,13 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
     def get_parameter(self, param: str) -> str:
         # docstring inherited from BaseEditor
 
-        tag, match = self._get_param_named(param)
+        _, _, _, match = self._get_param_named(param)
         if match:
             return match.group('value')
         else:
             raise ParameterNotFoundError(param, f"QSCH file")
 
-    def set_parameter(self, param: str, value: ValueType) -> None:
+    def set_parameter(self, param: str, value: ValueType | None) -> None:
         # docstring inherited from BaseEditor
         if isinstance(value, (int, float)):
             value_str: str = format_eng(value)
@@ -1104,14 +1096,23 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
         if permission == UpdatePermission.Deny:
             raise PermissionError(f"Permission denied for editing {param}")
         tag: QschTag
-        tag, match = self._get_param_named(param) # pyright: ignore[reportAssignmentType]
+        tag, text, statement, match = self._get_param_named(param) # pyright: ignore[reportAssignmentType]
         if match:
+            qualifier = tag.get_attr(QSCH_TEXT_STR_ATTR).removesuffix(text) # pyright: ignore[reportAttributeAccessIssue]
+        if value is None:
+            if match:
+                text = remove_text_parameter(text, statement, match)
+                if text:
+                    tag.set_attr(QSCH_TEXT_STR_ATTR, qualifier + text)
+                else:
+                    self.schematic.items.remove(tag) # pyright: ignore[reportOptionalMemberAccess]
+                _logger.info(f"Parameter {param} removed")
+                if permission == UpdatePermission.Inform:
+                    self.end_update(param, None, UpdateType.DeleteParameter)
+        elif match:
             _logger.debug(f"Parameter {param} found in QSCH file, updating it")
-            text: str = tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
             start, stop = match.span("value")
-            start += len(QSCH_TEXT_INSTR_QUALIFIER)
-            stop += len(QSCH_TEXT_INSTR_QUALIFIER)
-            text = text[:start] + value_str + text[stop:]
+            text = qualifier + text[:start] + value_str + text[stop:]
             tag.set_attr(QSCH_TEXT_STR_ATTR, text)
             _logger.info(f"Parameter {param} updated to {value_str}")
             _logger.debug(f"Text at {tag.get_attr(QSCH_TEXT_POS)} Updated to {text}")
-- 
2.43.0


From b3bad3947cd7f54ab4295eb6808ed7ac493b67d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:47 +0000
Subject: [PATCH 080/142] fix: saving a QSPICE schematic to another file does
 not change the file that is loaded on reset

---
 spicelib/editor/qsch_editor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index e76688d..7aa66c0 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -587,12 +587,14 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
 
         :param qsch_filename: The path to the QSCH file to be saved
         """
+        self._write_qsch(Path(qsch_filename))
+        self._circuit_filepath = Path(qsch_filename)
+
+    def _write_qsch(self, qsch_filename_p: Path) -> None:
         if not self.schematic:
             _logger.error("Empty Schematic information")
             return
-        qsch_filename_p = Path(qsch_filename)
         if self.updated() or qsch_filename_p != self._circuit_filepath:
-            self._circuit_filepath = qsch_filename_p
             with qsch_filename_p.open('w', encoding="cp1252") as qsch_file:
                 _logger.info(f"Writing QSCH file {qsch_file}")
                 for c in QSCH_HEADER:
@@ -818,7 +820,7 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
                 run_netlist_file = Path(run_netlist_file)
 
             if run_netlist_file.suffix == '.qsch':
-                return self.save_as(run_netlist_file)
+                return self._write_qsch(run_netlist_file)
             elif run_netlist_file.suffix in ('.net', '.cir'):
                 netlist_file = open(run_netlist_file, 'w', encoding="cp1252")
             else:
-- 
2.43.0


From 6c112812f30bdd9e5db7bdadc743de98ea0e4760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:29 +0000
Subject: [PATCH 081/142] fix: instructions of netlists are added once and can
 be removed, also control sections, comments, and with components made by the
 user

---
 spicelib/editor/spice_file.py       | 17 +++++------
 spicelib/editor/spice_subcircuit.py | 47 ++++++++++++++++-------------
 2 files changed, 34 insertions(+), 30 deletions(-)

diff --git a/spicelib/editor/spice_file.py b/spicelib/editor/spice_file.py
index 12c281f..7477bbd 100644
--- a/spicelib/editor/spice_file.py
+++ b/spicelib/editor/spice_file.py
@@ -8,7 +8,7 @@ import logging
 from .spice_subcircuit import SpiceCircuit
 from .base_editor import BaseEditor
 from .primitives import Primitive
-from .spice_subcircuit import get_line_command, _is_unique_instruction, separate_lines
+from .spice_subcircuit import get_line_command, _get_instruction_text, _is_unique_instruction, separate_lines
 from .spice_utils import END_LINE_TERM
 from .updates import UpdatePermission, UpdateType
 
@@ -51,7 +51,9 @@ class SpiceFile(BaseEditor, SpiceCircuit):
             i = 0
             while i < len(self.netlist):
                 line = self.netlist[i]
-                if isinstance(line, Primitive) and _is_unique_instruction(line.obj):
+                if isinstance(line, Primitive) and _is_unique_instruction(line):
+                    if _get_instruction_text(line) == _get_instruction_text(instruction):
+                        return  # it is already there
                     self.netlist[i] = Primitive(netlist=self, obj=instruction)
                     if permission == UpdatePermission.Inform:
                         self.end_update("INSTRUCTION", instruction.strip(), UpdateType.UpdateInstruction)
@@ -63,7 +65,7 @@ class SpiceFile(BaseEditor, SpiceCircuit):
 
         # check whether the instruction is already there (dummy proofing)
         for line in self.netlist:
-            if isinstance(line, Primitive) and line.obj.strip() == instruction.strip(): # pyright: ignore[reportOptionalMemberAccess]
+            if _get_instruction_text(line) == _get_instruction_text(instruction):
                 _logger.warning(f'Instruction "{instruction.strip()}" is already present in the netlist. Ignoring addition.')
                 return
         # TODO: if adding a .MODEL or .SUBCKT it should verify if it already exists and update it.
@@ -82,17 +84,14 @@ class SpiceFile(BaseEditor, SpiceCircuit):
             raise PermissionError('The .NET file is read-only')
         # TODO: Make it more intelligent so it recognizes .models, .param and .subckt
 
-        i = 0
-        for line in self.netlist:
-            if isinstance(line, Primitive) and line.obj.strip() == instruction.strip(): # pyright: ignore[reportOptionalMemberAccess]
+        for i, line in enumerate(self.netlist):
+            if _get_instruction_text(line) == _get_instruction_text(instruction):
                 del self.netlist[i]
                 logtxt = instruction.strip().replace("\r", "\\r").replace("\n", "\\n")
                 _logger.info(f'Instruction "{logtxt}" removed')
                 if permission == UpdatePermission.Inform:
                     self.end_update('INSTRUCTION', logtxt, UpdateType.DeleteInstruction)
                 return True
-            # All other cases are ignored
-            i += 1
 
         _logger.error(f'Instruction "{instruction}" not found.')
         return False
@@ -110,7 +109,7 @@ class SpiceFile(BaseEditor, SpiceCircuit):
             line = self.netlist[i]
             if isinstance(line, Primitive):
                 line = line.obj
-            if isinstance(line, str) and (match := regex.match(line)):
+            if isinstance(line, str) and (match := regex.match(line.lstrip())):
                 del self.netlist[i]
                 instr_removed = True
                 if  permission == UpdatePermission.Inform:
diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 6a8fce9..ccb94a9 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -85,6 +85,17 @@ def _is_unique_instruction(instruction):
     cmd = get_line_command(instruction)
     return cmd in UNIQUE_SIMULATION_DOT_INSTRUCTIONS
 
+
+def _get_instruction_text(line) -> str | None:
+    """
+    (Private function. Not to be used directly)
+    Returns the text of a line of a netlist in the form used for comparing instructions: Continuation lines are joined
+    and spaces reduced. It is None if the line was not read from text, like the components created by the user.
+    """
+    text = line.obj if isinstance(line, Primitive) else line
+    return ' '.join(re.sub(r'\n\s*\+', ' ', text).split()) if isinstance(text, str) else None
+
+
 _logger = logging.getLogger("spicelib.SpiceEditor")
 
 
@@ -872,11 +883,12 @@ class SpiceCircuit(BaseSubCircuit):
             cmd = get_line_command(instruction)
         if cmd == ".CONTROL":
             # If it is a control instruction, then it should be added as a ControlEditor
-            c = ControlEditor(self, instruction)
-            return c
+            return ControlEditor(netlist=self, obj=instruction)
         elif cmd.startswith(".INC"):
             # An include file
             return IncludeFile(netlist=self, obj=instruction)
+        elif cmd == 'X':
+            return SpiceCircuitInstance(netlist=self, obj=instruction)
         elif cmd in VALID_PREFIXES:
             # If it is a component, then it should be added as a SpiceComponent
             return SpiceComponent(netlist=self, obj=instruction)
@@ -897,12 +909,10 @@ class SpiceCircuit(BaseSubCircuit):
 
         # check whether the instruction is already there (dummy proofing)
         for line in self.netlist:
-            if isinstance(line, Primitive):
-                line_obj: str = line.obj # pyright: ignore[reportAssignmentType]
-                if line_obj.strip() == instruction.strip():
-                    _logger.warning(
-                        f'Instruction "{instruction.strip()}" is already present in the netlist. Ignoring addition.')
-                    return
+            if _get_instruction_text(line) == _get_instruction_text(instruction):
+                _logger.warning(
+                    f'Instruction "{instruction.strip()}" is already present in the netlist. Ignoring addition.')
+                return
         # TODO: if adding a .MODEL or .SUBCKT it should verify if it already exists and update it.
 
         if not instruction.endswith(END_LINE_TERM):
@@ -919,18 +929,13 @@ class SpiceCircuit(BaseSubCircuit):
         if self.begin_update() == UpdatePermission.Deny:
             _logger.warning("Permission denied")
             return False
-        i = 0
-        for line in self.netlist:
-            if isinstance(line, Primitive):
-                line_obj: str = line.obj # pyright: ignore[reportAssignmentType]
-                if line_obj.strip() == instruction.strip():
-                    del self.netlist[i]
-                    logtxt = instruction.strip().replace("\r", "\\r").replace("\n", "\\n")
-                    _logger.info(f'Instruction "{logtxt}" removed')
-                    self.end_update('INSTRUCTION', logtxt, UpdateType.DeleteInstruction)
-                    return True
-            # All other cases are ignored
-            i += 1
+        for i, line in enumerate(self.netlist):
+            if _get_instruction_text(line) == _get_instruction_text(instruction):
+                del self.netlist[i]
+                logtxt = instruction.strip().replace("\r", "\\r").replace("\n", "\\n")
+                _logger.info(f'Instruction "{logtxt}" removed')
+                self.end_update('INSTRUCTION', logtxt, UpdateType.DeleteInstruction)
+                return True
 
         _logger.error(f'Instruction "{instruction}" not found.')
         return False
@@ -947,7 +952,7 @@ class SpiceCircuit(BaseSubCircuit):
             line = self.netlist[i]
             if isinstance(line, Primitive):
                 line = line.obj
-            if isinstance(line, str) and (match := regex.match(line)):
+            if isinstance(line, str) and (match := regex.match(line.lstrip())):
                 del self.netlist[i]
                 instr_removed = True
                 self.end_update('INSTRUCTION', match.string.strip(), UpdateType.DeleteInstruction)
-- 
2.43.0


From e84455e610ffa3960e0786a86dda39194d1bec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:45 +0000
Subject: [PATCH 082/142] fix: instructions of LTspice schematics are added
 once, and are found and removed in texts with several lines

---
 spicelib/editor/asc_editor.py  | 106 +++++++++++++++++----------------
 spicelib/editor/base_editor.py |  18 ++++++
 2 files changed, 72 insertions(+), 52 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index eca2230..7aa8566 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -20,6 +20,7 @@ import sys
 from collections import OrderedDict
 from pathlib import Path
 import io
+from typing import Callable
 
 from .base_subcircuit import BaseSubCircuit
 from .updates import UpdateType, UpdatePermission
@@ -29,13 +30,13 @@ import logging
 
 from .ltspice_utils import TEXT_REGEX, TEXT_REGEX_X, TEXT_REGEX_Y, TEXT_REGEX_ALIGN, TEXT_REGEX_SIZE, TEXT_REGEX_TYPE, \
     TEXT_REGEX_TEXT, END_LINE_TERM, ASC_ROTATION_DICT, ASC_INV_ROTATION_DICT, asc_text_align_set, asc_text_align_get
-from .spice_utils import UNIQUE_SIMULATION_DOT_INSTRUCTIONS
 from .spice_editor import SpiceEditor, SpiceCircuit
 from ..simulators.ltspice_simulator import LTspice
 from ..utils.file_search import search_file_in_containers
 from .primitives import format_eng
 from .editor_errors import ComponentNotFoundError, ParameterNotFoundError, ValueNotFoundError
-from .base_editor import PARAM_REGEX, ValueType, find_text_parameters, remove_text_parameter
+from .base_editor import (PARAM_REGEX, ValueType, find_text_parameters, is_unique_instruction, remove_text_parameter,
+                          split_text_instructions)
 from .base_schematic import (BaseSchematic, Point, Line, Shape, Text, SchematicComponent, ERotation, TextTypeEnum, Port)
 from .asy_reader import AsyReader
 
@@ -766,27 +767,28 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
     def add_instruction(self, instruction: str) -> None:
         # docstring inherited from BaseEditor
         instruction = instruction.strip()  # Clean any end of line terminators
-        set_command = instruction.split()[0].upper()
-        if set_command in UNIQUE_SIMULATION_DOT_INSTRUCTIONS:
-            # Before adding new instruction, if it is a unique instruction, we just replace it
-            i = 0
-            while i < len(self.directives):
-                directive = self.directives[i]
-                if directive.type == TextTypeEnum.COMMENT:
-                    i += 1
-                    continue  # this is a comment
-                directive_text = directive.text.strip()
-                directive_command = directive_text.split()[0].upper()
-                if directive_command in UNIQUE_SIMULATION_DOT_INSTRUCTIONS:
-                    self.begin_update()
-                    self.directives[i].text = instruction
-                    _logger.info(f"Instruction {directive_text} updated to {instruction}")
-                    self.end_update("INSTRUCTION", directive_text, UpdateType.DeleteInstruction)
-                    self.end_update("INSTRUCTION", instruction, UpdateType.AddInstruction)
-                    return  # Job done, can exit this method
-                i += 1
-        elif set_command.startswith('.PARAM'):
+        instruction = re.sub(r'\r?\n', r'\\n', instruction)  # this is how line breaks are written
+        if instruction.upper().startswith('.PARAM'):
             raise RuntimeError('The .PARAM instruction should be added using the "set_parameter" method')
+        unique = is_unique_instruction(instruction)
+        for directive in self.directives:
+            if directive.type == TextTypeEnum.COMMENT:
+                continue  # this is a comment
+            lines = split_text_instructions(directive.text)
+            if directive.text.strip() == instruction or instruction in [line.strip() for line in lines]:
+                _logger.warning(f'Instruction "{instruction}" is already present in the schematic. Ignoring addition.')
+                return
+            if unique:
+                # Before adding new instruction, if it is a unique instruction, we just replace it
+                for i, line in enumerate(lines):
+                    if is_unique_instruction(line):
+                        self.begin_update()
+                        lines[i] = instruction
+                        directive.text = r'\n'.join(lines)
+                        _logger.info(f"Instruction {line} updated to {instruction}")
+                        self.end_update("INSTRUCTION", line.strip(), UpdateType.DeleteInstruction)
+                        self.end_update("INSTRUCTION", instruction, UpdateType.AddInstruction)
+                        return  # Job done, can exit this method
         self.begin_update()
         # If we get here, then the instruction was not found, so we need to add it
         x, y = self._get_text_space()
@@ -797,43 +799,43 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         self.canvas_updated = True
 
     def remove_instruction(self, instruction: str) -> bool:
-        i = 0
-        while i < len(self.directives):
-            if self.directives[i].type == TextTypeEnum.COMMENT:
-                i += 1
-                continue  # this is a comment   
-            if instruction in self.directives[i].text:
-                self.begin_update()
-                text = self.directives[i].text
-                del self.directives[i]
-                _logger.info(f"Instruction {text} removed")
-                self.end_update("INSTRUCTION", text, UpdateType.DeleteInstruction)
-                return True  # Job done, can exit this method
-            i += 1
+        instruction = re.sub(r'\r?\n', r'\\n', instruction.strip())  # this is how line breaks are written
+        if self._remove_instructions(lambda line: instruction in line, at_most=1):
+            return True
 
         msg = f'Instruction "{instruction}" not found'
         _logger.error(msg)
         return False
 
+    def _remove_instructions(self, matches: Callable[[str], bool], at_most: int | None = None) -> bool:
+        """Removes the instructions for which the given function is true. Returns True if any was removed"""
+        removed = 0
+        for directive in list(self.directives):
+            if directive.type == TextTypeEnum.COMMENT:
+                continue  # this is a comment
+            lines = split_text_instructions(directive.text)
+            if not any(map(matches, lines)) and matches(directive.text):
+                lines = [directive.text]  # The instruction has several lines
+            kept = []
+            for line in lines:
+                if removed != at_most and matches(line):
+                    self.begin_update()
+                    removed += 1
+                    _logger.info(f"Instruction {line} removed")
+                    self.end_update("INSTRUCTION", line.strip(), UpdateType.DeleteInstruction)
+                else:
+                    kept.append(line)
+            if not kept:
+                self.directives.remove(directive)
+            elif len(kept) < len(lines):
+                directive.text = r'\n'.join(kept)
+        if removed:
+            self.canvas_updated = True
+        return removed > 0
+
     def remove_Xinstruction(self, search_pattern: str) -> bool:
         regex = re.compile(search_pattern, re.IGNORECASE)
-        instr_removed = False
-        i = 0
-        while i < len(self.directives):
-            if self.directives[i].type == TextTypeEnum.COMMENT:
-                i += 1
-                continue  # this is a comment            
-            instruction = self.directives[i].text
-            if regex.match(instruction) is not None:
-                self.begin_update()
-                instr_removed = True
-                del self.directives[i]
-                self.end_update("INSTRUCTION", instruction, UpdateType.DeleteInstruction)
-                _logger.info(f"Instruction {instruction} removed")
-            else:
-                i += 1
-        if instr_removed:
-            self.canvas_updated = True
+        if self._remove_instructions(lambda line: regex.match(line.lstrip()) is not None):
             return True
         else:
             msg = f'Instructions matching "{search_pattern}" not found'
diff --git a/spicelib/editor/base_editor.py b/spicelib/editor/base_editor.py
index ee9c798..54ecb71 100644
--- a/spicelib/editor/base_editor.py
+++ b/spicelib/editor/base_editor.py
@@ -27,6 +27,7 @@ import io
 import re
 from typing import Iterator, TypeAlias, Final
 
+from .spice_utils import UNIQUE_SIMULATION_DOT_INSTRUCTIONS
 from ..sim.simulator import Simulator
 from .updates import Updates, UpdateType, UpdatePermission
 
@@ -77,6 +78,23 @@ def find_text_parameters(text: str) -> Iterator[tuple[re.Match, re.Match]]:
                 yield statement, match
 
 
+def split_text_instructions(text: str) -> list[str]:
+    """Splits a text of a schematic, where line breaks are written as \\n, in instructions. Continuation lines belong to the
+    instruction before. Joining them with a \\n gives the same text.
+
+    :meta private:
+    """
+    return re.split(r'\\n(?!\s*\+)', text)
+
+
+def is_unique_instruction(instruction: str) -> bool:
+    """Returns True if the instruction sets the analysis to be done. There can be only one.
+
+    :meta private:
+    """
+    return instruction.upper().split(maxsplit=1)[:1] in [[cmd] for cmd in UNIQUE_SIMULATION_DOT_INSTRUCTIONS]
+
+
 def remove_text_parameter(text: str, statement: re.Match, match: re.Match) -> str:
     """Removes a parameter found with find_text_parameters() from the text, and its statement if nothing is left in it.
 
-- 
2.43.0


From a599b0e19c95ccd8b5f69bdb251d2463360fa331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:39 +0000
Subject: [PATCH 083/142] fix: instructions of QSPICE schematics are added
 once, recorded, and are found and removed in texts with several lines

---
 spicelib/editor/qsch_editor.py | 117 ++++++++++++++++++---------------
 1 file changed, 65 insertions(+), 52 deletions(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 7aa66c0..3e0e02d 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -20,15 +20,15 @@ import sys
 import io
 from collections import OrderedDict
 from pathlib import Path
-from typing import TextIO, Any
+from typing import TextIO, Any, Callable, Iterator
 import re
 import logging
 
 from .base_subcircuit import BaseSubCircuit
 from .primitives import format_eng
 from .editor_errors import ComponentNotFoundError, ParameterNotFoundError, ValueNotFoundError
-from .base_editor import PARAM_REGEX, ValueType, find_text_parameters, remove_text_parameter
-from .spice_utils import UNIQUE_SIMULATION_DOT_INSTRUCTIONS
+from .base_editor import (PARAM_REGEX, ValueType, find_text_parameters, is_unique_instruction, remove_text_parameter,
+                          split_text_instructions)
 from .base_schematic import (BaseSchematic, SchematicComponent, Point, ERotation, Line, Text, TextTypeEnum,
                              LineStyle, Shape)
 from .updates import UpdateType, UpdatePermission
@@ -1037,11 +1037,7 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
     def _find_parameters(self):
         """Iterates over the parameters of the schematic. Gives the tag of the text, its text without the qualifier, the
         statement of the text and the parameter found in it. The last two are regular expression matches."""
-        text_tags = self.schematic.get_items('text')  # pyright: ignore[reportOptionalMemberAccess] # Connection to directives and comments
-        for tag in text_tags:
-            if tag.get_attr(QSCH_TEXT_COMMENT) == 1:  # if it is a comment, we ignore it
-                continue
-            text: str = tag.get_attr(QSCH_TEXT_STR_ATTR).removeprefix(QSCH_TEXT_INSTR_QUALIFIER) # pyright: ignore[reportAttributeAccessIssue]
+        for tag, text in self._active_texts():
             for statement, match in find_text_parameters(text):
                 yield tag, text, statement, match
 
@@ -1258,45 +1254,73 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
         if permission == UpdatePermission.Deny:
             raise PermissionError(f"Permission denied for adding instruction {instruction}")
         instruction = instruction.strip()  # Clean any end of line terminators
-        command = instruction.split()[0].upper()
-
-        if command in UNIQUE_SIMULATION_DOT_INSTRUCTIONS:
-            # Before adding new instruction, if it is a unique instruction, we just replace it
-            for text_tag in self.schematic.get_items('text'): # pyright: ignore[reportOptionalMemberAccess]
-                if text_tag.get_attr(QSCH_TEXT_COMMENT) == 1:  # if it is a comment, we ignore it
-                    continue
-                text: str = text_tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
-                text = text.lstrip(QSCH_TEXT_INSTR_QUALIFIER)
-                command = text.split()[0].upper()
-                if command in UNIQUE_SIMULATION_DOT_INSTRUCTIONS:
-                    text_tag.set_attr(QSCH_TEXT_STR_ATTR, QSCH_TEXT_INSTR_QUALIFIER + instruction)
-                    self.end_update("INSTRUCTION", text, UpdateType.DeleteInstruction)
-                    self.end_update("INSTRUCTION" ,instruction, UpdateType.AddInstruction)
-                    return  # Job done, can exit this method
-
-        elif command.startswith('.PARAM'):
+        instruction = re.sub(r'\r?\n', r'\\n', instruction)  # this is how line breaks are written
+        if instruction.upper().startswith('.PARAM'):
             raise RuntimeError('The .PARAM instruction should be added using the "set_parameter" method')
-        else:
-            self.end_update("INSTRUCTION", instruction, UpdateType.AddInstruction)
+        unique = is_unique_instruction(instruction)
+        for text_tag, text in self._active_texts():
+            lines = split_text_instructions(text)
+            if text.strip() == instruction or instruction in [line.strip() for line in lines]:
+                _logger.warning(f'Instruction "{instruction}" is already present in the schematic. Ignoring addition.')
+                return
+            if unique:
+                # Before adding new instruction, if it is a unique instruction, we just replace it
+                for i, line in enumerate(lines):
+                    if is_unique_instruction(line):
+                        lines[i] = instruction
+                        self._set_text(text_tag, r'\n'.join(lines))
+                        self.end_update("INSTRUCTION", line.strip(), UpdateType.DeleteInstruction)
+                        self.end_update("INSTRUCTION", instruction, UpdateType.AddInstruction)
+                        return  # Job done, can exit this method
+
         # If we get here, then the instruction was not found, so we need to add it
         x, y = self._get_text_space()
         tag, _ = QschTag.parse(f'«text ({x},{y}) 1 0 0 0x1000000 -1 -1 "{QSCH_TEXT_INSTR_QUALIFIER}{instruction}"»')
         self.schematic.items.append(tag) # pyright: ignore[reportOptionalMemberAccess]
+        self.end_update("INSTRUCTION", instruction, UpdateType.AddInstruction)
+
+    def _active_texts(self) -> Iterator[tuple[QschTag, str]]:
+        """Iterates over the texts that are not comments. Gives the tag and the text without the qualifier."""
+        for text_tag in self.schematic.get_items('text'): # pyright: ignore[reportOptionalMemberAccess]
+            if text_tag.get_attr(QSCH_TEXT_COMMENT) != 1:  # if it is a comment, we ignore it
+                yield text_tag, text_tag.get_attr(QSCH_TEXT_STR_ATTR).removeprefix(QSCH_TEXT_INSTR_QUALIFIER) # pyright: ignore
+
+    @staticmethod
+    def _set_text(text_tag: QschTag, text: str) -> None:
+        """Sets the text given by _active_texts(). The qualifier is kept."""
+        if text_tag.get_attr(QSCH_TEXT_STR_ATTR).startswith(QSCH_TEXT_INSTR_QUALIFIER): # pyright: ignore
+            text = QSCH_TEXT_INSTR_QUALIFIER + text
+        text_tag.set_attr(QSCH_TEXT_STR_ATTR, text)
+
+    def _remove_instructions(self, matches: Callable[[str], bool], at_most: int | None = None) -> bool:
+        """Removes the instructions for which the given function is true. Returns True if any was removed"""
+        removed = 0
+        for text_tag, text in self._active_texts():
+            lines = split_text_instructions(text)
+            if not any(map(matches, lines)) and matches(text):
+                lines = [text]  # The instruction has several lines
+            kept = []
+            for line in lines:
+                if removed != at_most and matches(line):
+                    removed += 1
+                    _logger.info(f'Instruction "{line}" removed')
+                    self.end_update("INSTRUCTION", line.strip(), UpdateType.DeleteInstruction)
+                else:
+                    kept.append(line)
+            if not kept:
+                self.schematic.items.remove(text_tag) # pyright: ignore[reportOptionalMemberAccess]
+            elif len(kept) < len(lines):
+                self._set_text(text_tag, r'\n'.join(kept))
+        return removed > 0
 
     def remove_instruction(self, instruction: str) -> bool:
         # docstring inherited from BaseEditor
         permission = self.begin_update()
         if permission == UpdatePermission.Deny:
             raise PermissionError(f"Permission denied for removing instruction {instruction}")
-        for text_tag in self.schematic.get_items('text'): # pyright: ignore[reportOptionalMemberAccess]
-            if text_tag.get_attr(QSCH_TEXT_COMMENT) == 1:  # if it is a comment, we ignore it
-                continue
-            text: str = text_tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
-            if instruction in text:
-                self.schematic.items.remove(text_tag) # pyright: ignore[reportOptionalMemberAccess]
-                self.end_update("INSTRUCTION", instruction, UpdateType.DeleteInstruction)
-                _logger.info(f'Instruction "{instruction}" removed')
-                return True  # Job done, can exit this method
+        instruction = re.sub(r'\r?\n', r'\\n', instruction.strip())  # this is how line breaks are written
+        if self._remove_instructions(lambda line: instruction in line, at_most=1):
+            return True
 
         msg = f'Instruction "{instruction}" not found'
         _logger.error(msg)
@@ -1308,23 +1332,12 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
         if permission == UpdatePermission.Deny:
             raise PermissionError(f"Permission denied for removing instructions with pattern '{search_pattern}'")
         regex = re.compile(search_pattern, re.IGNORECASE)
-        instr_removed = False
-        for text_tag in self.schematic.get_items('text'): # pyright: ignore[reportOptionalMemberAccess]
-            if text_tag.get_attr(QSCH_TEXT_COMMENT) == 1:  # if it is a comment, we ignore it
-                continue
-            text: str = text_tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
-            text = text.lstrip(QSCH_TEXT_INSTR_QUALIFIER)
-            if regex.match(text):
-                self.schematic.items.remove(text_tag) # pyright: ignore[reportOptionalMemberAccess]
-                self.end_update("INSTRUCTION" ,text, UpdateType.DeleteInstruction)
-                _logger.info(f'Instruction "{text}" removed')
-                instr_removed = True
-        if instr_removed:
+        if self._remove_instructions(lambda line: regex.match(line.lstrip()) is not None):
             return True
-        else:
-            msg = f'Instruction matching "{search_pattern}" not found'
-            _logger.error(msg)
-            return False
+
+        msg = f'Instruction matching "{search_pattern}" not found'
+        _logger.error(msg)
+        return False
 
     def copy_from(self, editor: 'BaseSchematic') -> None:
         # docstring inherited from BaseSchematic
-- 
2.43.0


From 6e32a2aa9dea3c82b48fc05cfc7c20df4209f13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:34 +0000
Subject: [PATCH 084/142] fix: the last update of an item comes last in the
 record, whatever the letter case and for replaced analyses; value() gives the
 last one

---
 spicelib/editor/updates.py | 26 +++++++++++++++++---------
 spicelib/sim/sim_runner.py |  2 +-
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/spicelib/editor/updates.py b/spicelib/editor/updates.py
index a250028..1a0fbb8 100644
--- a/spicelib/editor/updates.py
+++ b/spicelib/editor/updates.py
@@ -36,6 +36,10 @@ class Update:
     value: UpdateValueType
     updates: UpdateType = UpdateType.InvalidUpdate
 
+    def is_on(self, name: str) -> bool:
+        """Returns True if this is an update on the given name. As in the netlist, upper and lower case are the same."""
+        return self.name.upper() == name.upper()
+
     def __repr__(self):
         if self.updates == UpdateType.UpdateParameter:
             return f"Parameter {self.name} was updated to {self.value}"
@@ -59,6 +63,8 @@ class Update:
             return f"Component Parameter {self.name} was added with value {self.value}"
         elif self.updates == UpdateType.AddInstruction:
             return f"Instruction \"{self.value}\" was added."
+        elif self.updates == UpdateType.UpdateInstruction:
+            return f"Instruction \"{self.value}\" replaced the one of the same kind."
         elif self.updates == UpdateType.CloneSubcircuit:
             return f"Sub-circuit {self.name} was added"
         else:
@@ -84,7 +90,7 @@ class Updates:
         elif isinstance(item, str):
             # Try to get it by name, the last update done is the one that counts
             for update in reversed(self.netlist_updates):
-                if update.name == item:
+                if update.is_on(item):
                     return update
             raise IndexError(f"The item {item} doesn't exit.")
         else:
@@ -100,11 +106,10 @@ class Updates:
     def add_update(self, name: str, value: UpdateValueType, updates: UpdateType):
         """Add an update to the list"""
         for i, update in enumerate(self.netlist_updates):
-            if (update.name == name and
+            if (update.is_on(name) and
                     (name != "INSTRUCTION" or value == update.value) and  # if instruction then it should match
                     (update.updates == updates or updates == UpdateType.InvalidUpdate)):
-                if any(later.name == name and (name != "INSTRUCTION" or value == later.value)
-                       for later in self.netlist_updates[i + 1:]):
+                if any(later.is_on(name) for later in self.netlist_updates[i + 1:]):
                     # Something else was done to it in the meantime. The last update done needs to come last.
                     self.netlist_updates.append(self.netlist_updates.pop(i))
                 break
@@ -118,15 +123,18 @@ class Updates:
 
     def value(self, reference) -> UpdateValueType:
         "Get the value update done to a component. Returns None if there wasn't any update."
-        for update in self.netlist_updates:
-            if update.updates == UpdateType.UpdateComponentValue and update.name == reference:
-                return update.value
+        for update in reversed(self.netlist_updates):
+            if update.is_on(reference):
+                if update.updates == UpdateType.UpdateComponentValue:
+                    return update.value
+                if update.updates in (UpdateType.AddComponent, UpdateType.DeleteComponent):
+                    return None
         return None
 
     def parameter(self, name) -> UpdateValueType:
         "Get the update done to a parameter. Returns None if there wasn't any update."
         for update in reversed(self.netlist_updates):
-            if name == update.name:
+            if update.is_on(name):
                 if update.updates in (UpdateType.UpdateParameter, UpdateType.AddParameter):
                     return update.value
                 if update.updates == UpdateType.DeleteParameter:
@@ -134,4 +142,4 @@ class Updates:
         return None
 
     def updates_on(self, name: str) -> list[Update]:
-        return [update for update in self.netlist_updates if update.name.startswith(name)]
+        return [update for update in self.netlist_updates if update.name.upper().startswith(name.upper())]
diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 3be9e83..54f7590 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -180,7 +180,7 @@ class TaskIterator:
                 # the last update done to that name is the one that was simulated
                 for update in reversed(runtask.edits.netlist_updates):
                     if isinstance(update, Update):
-                        if name == update.name:
+                        if update.is_on(name):
                             if value == update.value or (isinstance(value, (list, tuple, set)) and update.value in value):
                                 break  # force the next iteration of `for name, value in self.conditions.items():`, making it an AND comparison
                             else:
-- 
2.43.0


From 85f7c28359cc213f9a090c79c85c894f6b5655de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:34 +0000
Subject: [PATCH 085/142] fix: removing a parameter that a component of a
 netlist doesn't have is not recorded

---
 spicelib/editor/spice_components.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spicelib/editor/spice_components.py b/spicelib/editor/spice_components.py
index 7ffaabb..14f9932 100644
--- a/spicelib/editor/spice_components.py
+++ b/spicelib/editor/spice_components.py
@@ -463,6 +463,8 @@ class SpiceComponent(Component):
             raise PermissionError("Updates are currently not allowed")
         old_params = self.params
         if value is None:
+            if key not in old_params:
+                return  # there is nothing to remove
             update = UpdateType.DeleteComponentParameter
         elif key not in old_params:
             update = UpdateType.AddComponentParameter
-- 
2.43.0


From e15076045c2c0992e6e002987e82223809bbdc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:34 +0000
Subject: [PATCH 086/142] fix: changing the symbol and adding components of
 LTspice schematics is recorded

---
 spicelib/editor/asc_editor.py     | 3 +++
 spicelib/editor/base_schematic.py | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 7aa8566..557404b 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -626,8 +626,11 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
 
     def set_element_model(self, element: str, model: str) -> None:
         component = self.get_component(element)
+        if self.begin_update() == UpdatePermission.Deny:
+            raise PermissionError(f"Permission denied for changing the model of component {element}")
         component.symbol = model
         _logger.info(f"Component {element} updated to {model}")
+        self.end_update(element, model, UpdateType.UpdateComponentValue)
 
     def set_component_attribute(self, reference: str, attribute: str, value: str) -> None:
         # docstring inherited from BaseSubCircuit
diff --git a/spicelib/editor/base_schematic.py b/spicelib/editor/base_schematic.py
index 1123222..f7f5c3c 100644
--- a/spicelib/editor/base_schematic.py
+++ b/spicelib/editor/base_schematic.py
@@ -370,13 +370,15 @@ class BaseSchematic(BaseEditor):
         elif not reference:
             _logger.error("Component reference cannot be empty")
             raise ValueError("Component reference cannot be empty")
+        elif self.begin_update() == UpdatePermission.Deny:
+            raise PermissionError(f"Permission denied for adding component {reference}")
         else:
             self.components[reference] = component
         component._netlist = self
         if kwargs:
             # Update attributes
             component.attributes.update(kwargs)
-        self.canvas_updated = True
+        self.end_update(reference, component.attributes.get('Value'), UpdateType.AddComponent)
 
     def scale(self, offset_x, offset_y, scale_x, scale_y: float,
               round_fun: Callable[[float], int | float] | None = None) -> None:
-- 
2.43.0


From a650b2a5d8e8ed7a1019f2cca10ee67fd11ec2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:46 +0000
Subject: [PATCH 087/142] fix: sub-circuits are found whatever the letter case
 and the characters of their names

---
 spicelib/editor/spice_subcircuit.py          | 2 +-
 spicelib/editor/spice_subcircuit_instance.py | 4 ++--
 spicelib/editor/spice_utils.py               | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index ccb94a9..8f41653 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -354,7 +354,7 @@ class SpiceCircuit(BaseSubCircuit):
         """
         for line in self.netlist:
             if isinstance(line, SpiceCircuit):
-                if line.name() == name:
+                if line.name().upper() == name.upper():
                     return line
             elif isinstance(line, IncludeFile):
                 # Searches inside the Include File
diff --git a/spicelib/editor/spice_subcircuit_instance.py b/spicelib/editor/spice_subcircuit_instance.py
index bc79aaa..610cb21 100644
--- a/spicelib/editor/spice_subcircuit_instance.py
+++ b/spicelib/editor/spice_subcircuit_instance.py
@@ -44,7 +44,7 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         """Resets the sub-circuit instance to its original state."""
         super().reset_attributes()
         # The instruction below might fail if the sub-circuit was not parsed in the parent netlist.
-        self._subcircuit = self._netlist.get_subcircuit_named(self.value)  # In case it isn't given, get it from the parent
+        self._subcircuit = self._netlist.get_subcircuit_named(self.value_str)  # In case it isn't given, get it from the parent
 
     @property
     def subcircuit(self):
@@ -52,7 +52,7 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         saved if there is an update made to it."""
         if self._subcircuit is None:
             # Try to get it from the parent netlist
-            self._subcircuit = self._netlist.get_subcircuit_named(self.value) # pyright: ignore[reportOptionalMemberAccess]
+            self._subcircuit = self._netlist.get_subcircuit_named(self.value_str) # pyright: ignore[reportOptionalMemberAccess]
             if self._subcircuit is None:
                 raise AssertionError(f"Couldn't find the subcircuit named \"{self.value}\"")
             self.shadow_subcircuit = None
diff --git a/spicelib/editor/spice_utils.py b/spicelib/editor/spice_utils.py
index 6333ae6..ab826ba 100644
--- a/spicelib/editor/spice_utils.py
+++ b/spicelib/editor/spice_utils.py
@@ -53,8 +53,8 @@ SPICE_DOT_INSTRUCTIONS = (
     '.WAVE',  # Write Selected Nodes to a .Wav File
 
 )
-SUBCKT_CLAUSE_FIND = r"^\.SUBCKT\s+"
-subckt_regex = re.compile(r"^.SUBCKT\s+(?P<name>[\w\.]+)", re.IGNORECASE)
+SUBCKT_CLAUSE_FIND = r"^\s*\.SUBCKT\s+"
+subckt_regex = re.compile(SUBCKT_CLAUSE_FIND + r"(?P<name>\S+)", re.IGNORECASE)
 lib_inc_regex = re.compile(
     r"^\.(LIB|INC(LUDE)?)\s+(?P<quote>[\"'])?(?P<filename>(?(quote)[^\"']+|.+?))(?(quote)(?P=quote).*|\s*(?:[;*].*)?)$",
     re.IGNORECASE
-- 
2.43.0


From 56ca95de595772358aa5d5b6ca808434d4e58e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:21 +0000
Subject: [PATCH 088/142] fix: copies of sub-circuits keep their includes and
 control sections, and don't copy the whole netlist

---
 spicelib/editor/primitives.py       | 6 +++++-
 spicelib/editor/spice_subcircuit.py | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/spicelib/editor/primitives.py b/spicelib/editor/primitives.py
index 1e467bc..8016ca3 100644
--- a/spicelib/editor/primitives.py
+++ b/spicelib/editor/primitives.py
@@ -303,8 +303,12 @@ class Component(Primitive):
         newone = type(self)()
         newone._netlist = new_parent or self._netlist
         newone._obj = copy.deepcopy(self._obj)
-        newone._attributes = copy.deepcopy(self._attributes)
         newone._reference = self._reference
+        for key, value in self._attributes.items():
+            if key == 'ports':  # The nets refer to the netlist and to its components. These are not to be copied.
+                newone._set_ports([port.name for port in value])
+            else:
+                newone._attributes[key] = copy.deepcopy(value)
         return newone
 
     def reset_attributes(self) -> dict:
diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 8f41653..f145764 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -406,8 +406,8 @@ class SpiceCircuit(BaseSubCircuit):
                 clone.netlist.append(primitive.clone(clone))
             elif isinstance(primitive, SpiceComponent):
                 clone.netlist.append(primitive.clone(clone))
-            elif isinstance(primitive, Primitive):
-                clone.netlist.append(Primitive(netlist=clone, obj=primitive.obj))
+            elif isinstance(primitive, Primitive):  # Also the includes and the control sections
+                clone.netlist.append(type(primitive)(netlist=clone, obj=primitive.obj))
             else:
                 clone.netlist.append(primitive)
         clone.netlist.append("***** ENDS SpiceEditor ****" + END_LINE_TERM)
-- 
2.43.0


From 159539ca0c13cc84e37887175927ae43bfb016cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:42 +0000
Subject: [PATCH 089/142] fix: edits of components that a sub-circuit doesn't
 have don't rename it; edits in sub-circuits are recorded once

---
 spicelib/editor/spice_subcircuit_instance.py | 33 +++++++-------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit_instance.py b/spicelib/editor/spice_subcircuit_instance.py
index 610cb21..40b42d0 100644
--- a/spicelib/editor/spice_subcircuit_instance.py
+++ b/spicelib/editor/spice_subcircuit_instance.py
@@ -82,22 +82,20 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
 
     def begin_update(self) -> UpdatePermission:
         netlist: BaseSubCircuit = self._netlist # pyright: ignore[reportAssignmentType]
-        permission = netlist.begin_update()
-        if permission == UpdatePermission.Inform and self.was_modified is False:
-            # First update => Also update the subcircuit
-            if permission == UpdatePermission.Inform:
-                old_name = self.value_str
-                netlist.end_update(f'CLONE({old_name})', old_name, UpdateType.CloneSubcircuit)
-                name = self.subcircuit.name()
-                Component.set_value(self, name)  # Jumps the update tracking
-                netlist.end_update(self.reference, name, UpdateType.UpdateComponentValue)
-        return permission
+        return netlist.begin_update()
 
     def end_update(self, name: str, value: ValueType | None, updates: UpdateType):
+        netlist: BaseSubCircuit = self._netlist # pyright: ignore[reportAssignmentType]
         # Make sure the modification is registered
-        self.shadow_subcircuit._modified = True
+        self.subcircuit._modified = True
+        old_name = self.value_str
+        new_name = self.subcircuit.name()
+        if old_name != new_name:
+            # First update => Also update the subcircuit
+            netlist.end_update(f'CLONE({old_name})', old_name, UpdateType.CloneSubcircuit)
+            Component.set_value(self, new_name)  # Jumps the update tracking
+            netlist.end_update(self.reference, new_name, UpdateType.UpdateComponentValue)
         # Redirect the update to the parent
-        netlist: BaseSubCircuit = self._netlist # pyright: ignore[reportAssignmentType]
         netlist.end_update(f"{self.reference}:{name}", value, updates)
 
     def reset_netlist(self, **kwargs) -> bool:
@@ -192,7 +190,6 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
 
             If this is the case, use GitHub to start a ticket.  https://github.com/nunobrum/spicelib
         """
-        self.begin_update()
         logger.debug(f'Setting element "{element}" to model "{model}"')
         component = self.get_component(element)
         component.set_value(model)
@@ -221,7 +218,6 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         :return: Nothing
         :raises: ComponentNotFoundError - In case one of the component is not found.
         """
-        self.begin_update()
         logger.debug(f'Setting parameters for component "{element}": {kwargs}')
         self.get_component(element).set_parameters(**kwargs)
 
@@ -239,7 +235,6 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         :return: Nothing
         :raises: ComponentNotFoundError - In case the component is not found
         """
-        self.begin_update()
         logger.debug(f'Setting attribute "{attribute}" of component "{reference}" to value "{value}"')
         component  = self.get_component(reference)
         setattr(component, attribute, value)
@@ -267,13 +262,9 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         :return: Nothing
         :raises: ComponentNotFoundError - In case one of the component is not found.
         """
-        permission = self.begin_update()
-        if permission == UpdatePermission.Deny:
+        if self.begin_update() == UpdatePermission.Deny:
             raise ValueError("Editor is read-only")
         self.subcircuit.set_component_values(**kwargs)
-        if permission == UpdatePermission.Inform:
-            for device, value in kwargs.items():
-                self.end_update(device, value, UpdateType.UpdateComponentValue)
 
 
     def add_component(self, component: SpiceComponent, **kwargs) -> None:
@@ -286,7 +277,6 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
 
         :return: Nothing
         """
-        self.begin_update()
         self.subcircuit.add_component(component, **kwargs)
 
     def remove_component(self, designator: str) -> None:
@@ -300,7 +290,6 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         :return: Nothing
         :raises: ComponentNotFoundError - When the component doesn't exist on the netlist.
         """
-        self.begin_update()
         self.subcircuit.remove_component(designator)
 
     def is_read_only(self):
-- 
2.43.0


From 784fc7e32021d3135e6824308567eeb83c439ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:42 +0000
Subject: [PATCH 090/142] fix: instructions added to sub-circuits are saved

---
 spicelib/editor/spice_subcircuit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index f145764..5a1461e 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -901,6 +901,9 @@ class SpiceCircuit(BaseSubCircuit):
 
     def add_instruction(self, instruction: str) -> None:
         # docstring in parent class
+        permission = self.begin_update()
+        if permission == UpdatePermission.Deny:
+            raise ValueError("Editor is read-only")
         cmd = get_line_command(instruction)
         if _is_unique_instruction(cmd):
             raise RuntimeError(f"Simulation directives like \"{cmd}\" can't be set on sub-circuits")
@@ -921,6 +924,8 @@ class SpiceCircuit(BaseSubCircuit):
         # Insert at the end
         primitive = self.class_for_instruction(instruction, cmd)
         self.netlist.insert(self._insert_position(), primitive)
+        if permission == UpdatePermission.Inform:
+            self.end_update('INSTRUCTION', instruction.strip(), UpdateType.AddInstruction)
 
     def remove_instruction(self, instruction) -> bool:
         # docstring is in the parent class
-- 
2.43.0


From e411c2053954d24244f1ac15a2220c05a773c0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:42 +0000
Subject: [PATCH 091/142] fix: items of sub-circuit instances are found
 whatever the letter case, and set the same value that is read

---
 spicelib/editor/spice_subcircuit_instance.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit_instance.py b/spicelib/editor/spice_subcircuit_instance.py
index 40b42d0..5169df6 100644
--- a/spicelib/editor/spice_subcircuit_instance.py
+++ b/spicelib/editor/spice_subcircuit_instance.py
@@ -119,9 +119,9 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         """
         if item in VALUE_IDs or item in PARAMS_IDs:
             return getattr(self, item)
-        elif item in self.get_components():
+        elif item in self.subcircuit:
             return self.get_component(item) # pyright: ignore[reportReturnType]
-        elif item in self.get_all_parameter_names():
+        elif item.upper() in self.get_all_parameter_names():
             return self.get_parameter(item)
         else:
             raise KeyError(f'Key "{item}" not found as component or parameter in subcircuit "{self.value}".')
@@ -133,9 +133,11 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         circuit['R1'] = '3.3k'
         If the key is not found, and if there is a parameter with the same name, it will set the parameter value instead.
         """
-        if key in self.subcircuit.get_components():
+        if key in VALUE_IDs or key in PARAMS_IDs:
+            setattr(self, key, value)
+        elif key in self.subcircuit:
             self.set_component_value(key, value)
-        elif key in self.subcircuit.get_all_parameter_names():
+        elif key.upper() in self.get_all_parameter_names():
             self.set_parameter(key, value)
         else:
             raise KeyError(f'Key "{key}" not found as component or parameter in subcircuit "{self.reference}".')
-- 
2.43.0


From c31d764fdac14909e3c08cd1f262c1dcbd28c0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:57 +0000
Subject: [PATCH 092/142] fix: copies of sub-circuits don't take the name of
 another sub-circuit

---
 spicelib/editor/spice_subcircuit_instance.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_subcircuit_instance.py b/spicelib/editor/spice_subcircuit_instance.py
index 5169df6..b463eb9 100644
--- a/spicelib/editor/spice_subcircuit_instance.py
+++ b/spicelib/editor/spice_subcircuit_instance.py
@@ -58,7 +58,11 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
             self.shadow_subcircuit = None
         if self.shadow_subcircuit is None:
             # In all cases it creates a new copy of the subcircuit, it is only writen to the netlist if it was modified.
-            new_name = self.value_str + '_' + self.reference
+            new_name = base_name = self.value_str + '_' + self.reference
+            i = 1
+            while self._netlist.get_subcircuit_named(new_name) is not None:  # There is already one with that name
+                i += 1
+                new_name = f'{base_name}_{i}'
             self.shadow_subcircuit = self._subcircuit.clone(self, new_name=new_name)
         return self.shadow_subcircuit
 
-- 
2.43.0


From 9ca6ef1664b09024e16c68a057d6794310530b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:14 +0000
Subject: [PATCH 093/142] fix: iterating a netlist gives its components

---
 spicelib/editor/spice_subcircuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 5a1461e..f38d749 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -550,7 +550,7 @@ class SpiceCircuit(BaseSubCircuit):
         for component in circuit:
             print(component)
         """
-        for line_no, line in enumerate(self.netlist):
+        for line in self.netlist:
             if isinstance(line, SpiceCircuit):
                 yield from line
             elif isinstance(line, ControlEditor):
@@ -560,7 +560,7 @@ class SpiceCircuit(BaseSubCircuit):
             else:
                 cmd = get_line_command(line)
                 if cmd in VALID_PREFIXES:
-                    yield SpiceComponent(self, line_no)
+                    yield line
 
     def get_component_attribute(self, reference: str, attribute: str) -> str | None:
         """
-- 
2.43.0


From 1ca51b5f77dcf20afcc1ae3ddf5be332d81a2594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:14 +0000
Subject: [PATCH 094/142] fix: edited sub-circuits are saved also when the end
 of the netlist is indented

---
 spicelib/editor/spice_subcircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index f38d749..5cf13a2 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -259,7 +259,7 @@ class SpiceCircuit(BaseSubCircuit):
             elif isinstance(primitive, Primitive):
                 line: str = primitive.obj # pyright: ignore[reportAssignmentType]
                 # Writes the modified sub-circuits at the end just before the .END clause
-                if line.upper().startswith(".END"):
+                if get_line_command(line) in ('.END', '.ENDS'):
                     # write here the modified sub-circuits
                     for sub in self.modified_subcircuits():
                         sub.write_lines(stream)
-- 
2.43.0


From 732e616cf2af4212ceedbc8bb3d56147328d2af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:14 +0000
Subject: [PATCH 095/142] fix: a sub-circuit definition with the name of a
 component does not hide the component

---
 spicelib/editor/spice_subcircuit.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 5cf13a2..e3e344a 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -504,18 +504,11 @@ class SpiceCircuit(BaseSubCircuit):
                 return component_type # pyright: ignore[reportReturnType] # Component is converted to SpiceComponent
         else:
             for component in self.netlist:
-                # This test needs to be done before SpiceComponent because this is a Subclass of SpiceComponent
-                if isinstance(component, SpiceCircuit):
-                    name = component.name()
-                    if name.upper() == ref_upped:
-                        return component
-                elif isinstance(component, SpiceComponent):
-                    if component.reference.upper() == ref_upped:
-                        # if isinstance(component, SpiceCircuitInstance):
-                        #     # Need to check whether a shadow exists
-                        #     pass
-
-                        return component
+                if isinstance(component, SpiceComponent) and component.reference.upper() == ref_upped:
+                    return component
+            for component in self.netlist:
+                if isinstance(component, SpiceCircuit) and component.name().upper() == ref_upped:
+                    return component
 
             error_msg = "line starting with '%s' not found in netlist" % reference
             _logger.error(error_msg)
-- 
2.43.0


From 771b79a2c54ceb697635c5b17033cebdccb09bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:01 +0000
Subject: [PATCH 096/142] fix: items of sub-circuit instances read and set the
 parameters of the sub-circuit

---
 spicelib/editor/spice_subcircuit_instance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit_instance.py b/spicelib/editor/spice_subcircuit_instance.py
index b463eb9..1cb323a 100644
--- a/spicelib/editor/spice_subcircuit_instance.py
+++ b/spicelib/editor/spice_subcircuit_instance.py
@@ -126,7 +126,7 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         elif item in self.subcircuit:
             return self.get_component(item) # pyright: ignore[reportReturnType]
         elif item.upper() in self.get_all_parameter_names():
-            return self.get_parameter(item)
+            return self.subcircuit.get_parameter(item)
         else:
             raise KeyError(f'Key "{item}" not found as component or parameter in subcircuit "{self.value}".')
 
@@ -142,7 +142,7 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         elif key in self.subcircuit:
             self.set_component_value(key, value)
         elif key.upper() in self.get_all_parameter_names():
-            self.set_parameter(key, value)
+            self.subcircuit.set_parameter(key, value)
         else:
             raise KeyError(f'Key "{key}" not found as component or parameter in subcircuit "{self.reference}".')
 
-- 
2.43.0


From 0b754a76c76199481887530f9bf589a81d10a127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:03 +0000
Subject: [PATCH 097/142] fix: names of models and sub-circuits with a slash
 are recognised

---
 spicelib/editor/spice_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_utils.py b/spicelib/editor/spice_utils.py
index ab826ba..26f00cf 100644
--- a/spicelib/editor/spice_utils.py
+++ b/spicelib/editor/spice_utils.py
@@ -117,7 +117,7 @@ END_LINE_TERM = '\n'  #: This controls the end of line terminator used
 COMMENT_RGX = r"(?:\s*;.*)?\\?\s*$"
 
 # Potential model name, probably needs expanding. Will require a leading space
-MODEL_OR_VALUE_RGX = r"\s+(?P<value>[\w\.\-\{\}]+)"
+MODEL_OR_VALUE_RGX = r"\s+(?P<value>[\w\.\-\{\}/]+)"
 
 # the rest of the line. Cannot be used with PARAM.
 # Includes the comment regex and will expect to finish the line.
-- 
2.43.0


From 0cad4c2895c4e768db37c13498a13b1b5ea1761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:11 +0000
Subject: [PATCH 098/142] fix: setting the same sub-circuit to an instance
 keeps the edits done in it

---
 spicelib/editor/spice_subcircuit_instance.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit_instance.py b/spicelib/editor/spice_subcircuit_instance.py
index 1cb323a..58fdd26 100644
--- a/spicelib/editor/spice_subcircuit_instance.py
+++ b/spicelib/editor/spice_subcircuit_instance.py
@@ -74,10 +74,12 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
             return None
 
     def set_value(self, value):
-        """Makes sure the copies are invalidated"""
+        """Makes sure the copies are invalidated, unless it is the value that it already has"""
+        is_same = value == self.value_str
         super().set_value(value)
-        self._subcircuit = None
-        self.shadow_subcircuit = None
+        if not is_same:
+            self._subcircuit = None
+            self.shadow_subcircuit = None
 
     @property
     def was_modified(self):
-- 
2.43.0


From cc5fa11f5dbeb1f34551969e946fd1657cc9cef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:07 +0000
Subject: [PATCH 099/142] fix: extremes and averages of measurements accept a
 single step number

---
 spicelib/log/logfile_data.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spicelib/log/logfile_data.py b/spicelib/log/logfile_data.py
index d99be54..e039ff6 100644
--- a/spicelib/log/logfile_data.py
+++ b/spicelib/log/logfile_data.py
@@ -297,6 +297,10 @@ class LogfileData:
         else:  # Assuming it is an iterable
             return [self.dataset[measure][step] for step in steps]
 
+    def _list_of_measure_values(self, measure: str, steps: None | int | Iterable = None) -> list:
+        """Returns the measurements taken at the given steps as a list, also when a single step is given."""
+        return self.get_measure_values_at_steps(measure, [steps] if isinstance(steps, int) else steps)
+
     def max_measure_value(self, measure: str, steps: None | int | Iterable = None) \
             -> float | int | str:
         """
@@ -309,7 +313,7 @@ class LogfileData:
         :return: maximum value of the measurement
         :rtype: float or int
         """
-        return max(self.get_measure_values_at_steps(measure, steps))
+        return max(self._list_of_measure_values(measure, steps))
 
     def min_measure_value(self, measure: str, steps: None | int | Iterable = None) \
             -> float | int | str:
@@ -323,7 +327,7 @@ class LogfileData:
         :return: minimum value of the measurement
         :rtype: float or int
         """
-        return min(self.get_measure_values_at_steps(measure, steps))
+        return min(self._list_of_measure_values(measure, steps))
 
     def avg_measure_value(self, measure: str, steps: None | int | Iterable = None) \
             -> float | int | str | LTComplex:
@@ -337,7 +341,7 @@ class LogfileData:
         :return: average value of the measurement
         :rtype: float or int
         """
-        values = self.get_measure_values_at_steps(measure, steps)
+        values = self._list_of_measure_values(measure, steps)
         return sum(values) / len(values)
 
     def obtain_amplitude_and_phase_from_complex_values(self):
-- 
2.43.0


From 56e8eeb12a9d8562c1dfb86d3d7ef498ee84a7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:53 +0000
Subject: [PATCH 100/142] fix: logs of a testbench run with a callback can be
 read

---
 spicelib/sim/tookit/tolerance_deviations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/tookit/tolerance_deviations.py b/spicelib/sim/tookit/tolerance_deviations.py
index baba091..155c356 100644
--- a/spicelib/sim/tookit/tolerance_deviations.py
+++ b/spicelib/sim/tookit/tolerance_deviations.py
@@ -222,9 +222,9 @@ class ToleranceDeviations(SimAnalysis, ABC):
             self.editor.remove_instruction(run_stepping)
         self.editor.add_instruction(".step param run -1 %d 1" % self.last_run_number)  # puts back the instruction
         self.runner.wait_completion()
+        self.testbench_executed = True
         if callback is not None:
             return (sim.get_results() if sim is not None else None for sim in self.simulations)
-        self.testbench_executed = True
         return None
 
     def add_log(self, run_task: RunTask) -> LogfileData | None:
-- 
2.43.0


From cd8b1535a1e567c14ba14a405f697beab75ea55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:59 +0000
Subject: [PATCH 101/142] fix: symbols are converted to QSPICE whatever
 windows, attributes and pin names they have

---
 spicelib/editor/asy_reader.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/spicelib/editor/asy_reader.py b/spicelib/editor/asy_reader.py
index 7737feb..1f16c5c 100644
--- a/spicelib/editor/asy_reader.py
+++ b/spicelib/editor/asy_reader.py
@@ -29,6 +29,7 @@ from .qsch_editor import QschTag
 _logger = logging.getLogger("spicelib.AsyReader")
 SCALE_X = 6.25
 SCALE_Y = - 6.25
+ASY_WINDOWS = ('0', '3', '123')  # Windows of the reference, Value and Value2
 
 
 class AsyReader:
@@ -87,7 +88,7 @@ class AsyReader:
                     self.symbol_type = line[len("SymbolType "):].strip()
                 elif line.startswith("PINATTR"):
                     assert pin is not None, "A PIN was already created."
-                    tag, attribute, value = line.split(' ', maxsplit=3)
+                    tag, attribute, value = line.split(' ', maxsplit=2)
                     value = value.strip()  # gets rid of the \n
                     pin.text += f"{attribute}={value};"
                 elif line.startswith("PIN"):
@@ -185,11 +186,14 @@ class AsyReader:
                 self.pins.append(pin)
 
     def to_qsch(self, *args):
-        """Create a QschTag representing a component symbol."""
-        spice_prefix = self.attributes['Prefix']
+        """Create a QschTag representing a component symbol.
+
+        :param args: the texts of the symbol: the reference, the value and, optionally, the texts that follow the value.
+        """
+        spice_prefix = self.attributes.get('Prefix') or 'X'
         symbol = QschTag("symbol", spice_prefix[0])
         symbol.items.append(QschTag("type:", spice_prefix))
-        symbol.items.append(QschTag("description:", self.attributes["Description"]))
+        symbol.items.append(QschTag("description:", self.attributes.get("Description", "")))
         symbol.items.append(QschTag("shorted pins:", "false"))
         for line in self.lines:
             x1 = int(line.V1.X * SCALE_X)
@@ -248,12 +252,14 @@ class AsyReader:
                 raise ValueError(f"Shape {shape.name} not supported")
             symbol.items.append(shape_tag)
 
-        for i, attr in enumerate(self.windows):
-            coord = attr.coord
+        # QSpice needs the reference and then the value, whatever the order of the windows in the symbol.
+        windows = {window.text: window.coord for window in self.windows if window.type == TextTypeEnum.ATTRIBUTE}
+        for i, arg in enumerate(args):
+            coord = windows.get(ASY_WINDOWS[i] if i < len(ASY_WINDOWS) else None, Point(0, 0))
             x = coord.X * SCALE_X
             y = coord.Y * SCALE_Y
             text, _ = QschTag.parse(f'«text ({x:.0f},{y:.0f})'
-                                    f' 1 7 0 0x1000000 -1 -1 "{args[i]}"»')
+                                    f' 1 7 0 0x1000000 -1 -1 "{arg}"»')
             symbol.items.append(text)
 
         for pin in self.pins:
@@ -261,11 +267,11 @@ class AsyReader:
             attr_dict = {}
             for pair in pin.text.split(";"):
                 if '=' in pair:
-                    k, v = pair.split('=')
+                    k, v = pair.split('=', maxsplit=1)
                     attr_dict[k] = v
 
             pin_tag, _ = QschTag.parse(f'«pin ({coord.X * SCALE_X:.0f},{coord.Y * SCALE_Y:.0f}) (0,0)'
-                                       f' 1 0 0 0x1000000 -1 "{attr_dict["PinName"]}"»')
+                                       f' 1 0 0 0x1000000 -1 "{attr_dict.get("PinName", "")}"»')
             symbol.items.append(pin_tag)
 
         return symbol
-- 
2.43.0


From 5047f37f030092046648d7e42311cb6a608e4aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:59 +0000
Subject: [PATCH 102/142] fix: the labels of ports are scaled once

---
 spicelib/editor/base_schematic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spicelib/editor/base_schematic.py b/spicelib/editor/base_schematic.py
index f7f5c3c..f112859 100644
--- a/spicelib/editor/base_schematic.py
+++ b/spicelib/editor/base_schematic.py
@@ -400,6 +400,8 @@ class BaseSchematic(BaseEditor):
             directive.coord.X = round_fun(directive.coord.X * scale_x + offset_x)
             directive.coord.Y = round_fun(directive.coord.Y * scale_y + offset_y)
         for port in self.ports:
+            if any(port.text is label for label in self.labels):
+                continue  # it was scaled with the labels
             port.text.coord.X = round_fun(port.text.coord.X * scale_x + offset_x)
             port.text.coord.Y = round_fun(port.text.coord.Y * scale_y + offset_y)
         for line in self.lines:
-- 
2.43.0


From f2ebc5b855c3b19d8a54eb818fba71d620221c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:51 +0000
Subject: [PATCH 103/142] fix: the second value of components is converted to
 QSPICE

---
 spicelib/editor/asy_reader.py   | 3 +++
 spicelib/scripts/asc_to_qsch.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/asy_reader.py b/spicelib/editor/asy_reader.py
index 1f16c5c..2ef2bf9 100644
--- a/spicelib/editor/asy_reader.py
+++ b/spicelib/editor/asy_reader.py
@@ -189,6 +189,7 @@ class AsyReader:
         """Create a QschTag representing a component symbol.
 
         :param args: the texts of the symbol: the reference, the value and, optionally, the texts that follow the value.
+            Texts that are None are skipped.
         """
         spice_prefix = self.attributes.get('Prefix') or 'X'
         symbol = QschTag("symbol", spice_prefix[0])
@@ -255,6 +256,8 @@ class AsyReader:
         # QSpice needs the reference and then the value, whatever the order of the windows in the symbol.
         windows = {window.text: window.coord for window in self.windows if window.type == TextTypeEnum.ATTRIBUTE}
         for i, arg in enumerate(args):
+            if arg is None:
+                continue  # This text is not used
             coord = windows.get(ASY_WINDOWS[i] if i < len(ASY_WINDOWS) else None, Point(0, 0))
             x = coord.X * SCALE_X
             y = coord.Y * SCALE_Y
diff --git a/spicelib/scripts/asc_to_qsch.py b/spicelib/scripts/asc_to_qsch.py
index c4a3a9f..2fb9b30 100644
--- a/spicelib/scripts/asc_to_qsch.py
+++ b/spicelib/scripts/asc_to_qsch.py
@@ -113,7 +113,7 @@ def convert_asc_to_qsch(asc_file, qsch_file, search_paths=[]):
                         print(f"Found {symbol_asc_file}")
                         symbol_asc = AsyReader(symbol_asc_file)
                         value = comp.attributes.get('Value', '<val>')
-                        symbol_tag = symbol_asc.to_qsch(comp.reference, value)
+                        symbol_tag = symbol_asc.to_qsch(comp.reference, value, comp.attributes.get('Value2'))
                         symbol_stock[comp.symbol] = symbol_tag
                         break
 
-- 
2.43.0


From 7b0939eed177aab9f40d207c8c98455abe2733d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:59 +0000
Subject: [PATCH 104/142] fix: symbols beside a schematic given without
 directory are found

---
 spicelib/scripts/asc_to_qsch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/scripts/asc_to_qsch.py b/spicelib/scripts/asc_to_qsch.py
index 2fb9b30..1aea092 100644
--- a/spicelib/scripts/asc_to_qsch.py
+++ b/spicelib/scripts/asc_to_qsch.py
@@ -96,7 +96,7 @@ def convert_asc_to_qsch(asc_file, qsch_file, search_paths=[]):
             # TODO: this should use the default locations from AscEditor, and use search_file_in_containers, just like AscEditor does.
             for sym_root in search_paths + [
                 # os.path.curdir,  # The current script directory
-                os.path.split(asc_file)[0],  # The directory where the script is located
+                os.path.split(asc_file)[0] or os.path.curdir,  # The directory where the script is located
                 os.path.expanduser("~/AppData/Local/LTspice/lib/sym"),
                 os.path.expanduser("~/Documents/LtspiceXVII/lib/sym"),
                 # os.path.expanduser(r"~\AppData\Local\Programs\ADI\LTspice\lib.zip"), # TODO: implement this
-- 
2.43.0


From 9d5cbe9a3f2a1c0224cc75e8ee4b82af15e83c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:14 +0000
Subject: [PATCH 105/142] fix: the symbols of a schematic are not taken from
 the directory of another one

---
 spicelib/editor/asc_editor.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 557404b..1053b42 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -212,9 +212,6 @@ class AscComponent(SchematicComponent):
 
 class AscEditor(BaseSchematic, BaseSubCircuit):
     """Class made to update directly the LTspice ASC files"""
-    symbol_cache = {}  # This is a class variable, so it can be shared between all instances.
-    """:meta private:"""
-    
     simulator_lib_paths: list[str] = LTspice.get_default_library_paths()
     """ This is initialised with typical locations found for LTspice.
     You can (and should, if you use wine), call `prepare_for_simulator()` once you've set the executable paths.
@@ -225,6 +222,7 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
     
     def __init__(self, asc_filename: str|Path, encoding='autodetect'):
         super().__init__(asc_filename)
+        self.symbol_cache = {}  # symbol files found, schematics in other directories may have others
         self.version = 4
         self.sheet = "1 0 0"  # Three values are present on the SHEET clause
         if not self._circuit_filepath.exists():
-- 
2.43.0


From 03b6f829af21ee6a92418f2cb645870d6e2e10f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:15 +0000
Subject: [PATCH 106/142] fix: the conversion to QSPICE finds the symbols in
 the paths given to it

---
 spicelib/scripts/asc_to_qsch.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spicelib/scripts/asc_to_qsch.py b/spicelib/scripts/asc_to_qsch.py
index 1aea092..28540c3 100644
--- a/spicelib/scripts/asc_to_qsch.py
+++ b/spicelib/scripts/asc_to_qsch.py
@@ -61,8 +61,13 @@ def main():
 def convert_asc_to_qsch(asc_file, qsch_file, search_paths=[]):
     """Converts an ASC file to a QSCH schematic"""
     symbol_stock = {}
+
+    class SourceEditor(AscEditor):
+        """Also finds symbols in the paths given here"""
+        custom_lib_paths = list(search_paths) + AscEditor.custom_lib_paths
+
     # Open the ASC file
-    asc_editor = AscEditor(asc_file)
+    asc_editor = SourceEditor(asc_file)
 
     # import the conversion data from XML file
     # need first to find the file. It is in the same directory as the script
-- 
2.43.0


From 2534ad024bfa376f3a50b7ff293e1469f574dea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:51 +0000
Subject: [PATCH 107/142] fix: components are converted to QSPICE with all the
 symbols that the editor finds

---
 spicelib/scripts/asc_to_qsch.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spicelib/scripts/asc_to_qsch.py b/spicelib/scripts/asc_to_qsch.py
index 28540c3..7164dd9 100644
--- a/spicelib/scripts/asc_to_qsch.py
+++ b/spicelib/scripts/asc_to_qsch.py
@@ -117,10 +117,12 @@ def convert_asc_to_qsch(asc_file, qsch_file, search_paths=[]):
                     if symbol_asc_file is not None:
                         print(f"Found {symbol_asc_file}")
                         symbol_asc = AsyReader(symbol_asc_file)
-                        value = comp.attributes.get('Value', '<val>')
-                        symbol_tag = symbol_asc.to_qsch(comp.reference, value, comp.attributes.get('Value2'))
-                        symbol_stock[comp.symbol] = symbol_tag
                         break
+            else:
+                symbol_asc = asc_editor._get_symbol(comp.symbol)  # Where the editor has found it
+            value = comp.attributes.get('Value', '<val>')
+            symbol_tag = symbol_asc.to_qsch(comp.reference, value, comp.attributes.get('Value2'))
+            symbol_stock[comp.symbol] = symbol_tag
 
         # if symbol_tree:
         #     name = symbol_tree.find("name").text
-- 
2.43.0


From 5fdae97816c32f55e38eb0d0755339c33f18e01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:46 +0000
Subject: [PATCH 108/142] fix: comment lines and quoted texts of a netlist
 don't need to have balanced brackets and quotes

---
 spicelib/editor/spice_subcircuit.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index e3e344a..c6aba7a 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -123,7 +123,9 @@ def separate_lines(stream: io.StringIO) -> Generator[str, None, None]:
                 yield current_line
             break
 
-        if char in ['{', '(', '[']:
+        if in_quotes and char in '{([])}':
+            pass  # a text between quotes, it doesn't need to be balanced
+        elif char in ['{', '(', '[']:
             braces_stack.append(char)
         elif char in ['}', ')', ']']:
             if braces_stack:
@@ -152,9 +154,9 @@ def separate_lines(stream: io.StringIO) -> Generator[str, None, None]:
                     yield current_line + char
                     current_line = ""  # reset the current line after yielding
                 continue
-        elif char =='*' and len(current_line)==0 and not braces_stack and not in_quotes:
+        elif char in ('*', '#') and not current_line.strip() and not braces_stack and not in_quotes:
             # This is a comment line, read till the end of the line
-            current_line = char + stream.readline()
+            current_line += char + stream.readline()
             if current_line:
                 yield current_line
             current_line = ""  # reset the current line after yielding
-- 
2.43.0


From e28907eddae11adea672b5e7fb81f0c8477b5e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:04 +0000
Subject: [PATCH 109/142] fix: the lines of the control sections of a netlist
 are kept as they are

---
 spicelib/editor/spice_subcircuit.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index c6aba7a..ccccb7b 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -99,6 +99,11 @@ def _get_instruction_text(line) -> str | None:
 _logger = logging.getLogger("spicelib.SpiceEditor")
 
 
+def is_control_section(line: str) -> bool:
+    """Internal function. Tells if the line starts a control section."""
+    return re.match(r'\s*\.CONTROL(\s|$)', line, re.IGNORECASE) is not None
+
+
 def separate_lines(stream: io.StringIO) -> Generator[str, None, None]:
     """Iterator of spice lines from the stream, handling line continuations and comments.
     When a line starts with a '+', it is considered a continuation of the previous line, and the '+' is removed.
@@ -110,6 +115,7 @@ def separate_lines(stream: io.StringIO) -> Generator[str, None, None]:
     current_line = ""
     braces_stack = []
     in_quotes = False
+    in_control = False
     next_char = None
     while True:
         if next_char is not None:
@@ -123,6 +129,13 @@ def separate_lines(stream: io.StringIO) -> Generator[str, None, None]:
                 yield current_line
             break
 
+        if in_control and not current_line:
+            # The control sections have a language of their own, their lines are kept as they are.
+            line = char if char == '\n' else char + stream.readline()
+            in_control = not line.strip().upper().startswith('.ENDC')
+            yield line
+            continue
+
         if in_quotes and char in '{([])}':
             pass  # a text between quotes, it doesn't need to be balanced
         elif char in ['{', '(', '[']:
@@ -152,6 +165,7 @@ def separate_lines(stream: io.StringIO) -> Generator[str, None, None]:
                     current_line += char
                 else:
                     yield current_line + char
+                    in_control = is_control_section(current_line)
                     current_line = ""  # reset the current line after yielding
                 continue
         elif char in ('*', '#') and not current_line.strip() and not braces_stack and not in_quotes:
@@ -166,6 +180,7 @@ def separate_lines(stream: io.StringIO) -> Generator[str, None, None]:
             # This is a comment and the rest of the line can be consumed.
             current_line += char + stream.readline()
             yield current_line
+            in_control = is_control_section(current_line)
             current_line = ""
             continue
 
-- 
2.43.0


From c7e9123f89d90c3254c7036865ac35229de570e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:04 +0000
Subject: [PATCH 110/142] fix: the title of a netlist can have any text

---
 spicelib/editor/spice_subcircuit.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index ccccb7b..40a790d 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -176,6 +176,12 @@ def separate_lines(stream: io.StringIO) -> Generator[str, None, None]:
             current_line = ""  # reset the current line after yielding
             continue
 
+        elif char in (' ', '\t') and current_line.strip().upper() == '.TITLE':
+            # The title is a free text
+            yield current_line + char + stream.readline()
+            current_line = ""
+            continue
+
         elif char == ';' and not braces_stack and not in_quotes:
             # This is a comment and the rest of the line can be consumed.
             current_line += char + stream.readline()
-- 
2.43.0


From fd9a6671625af3853f342929cd18b9e3780545f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:30 +0000
Subject: [PATCH 111/142] fix: saving a schematic saves the blocks of all
 levels and accepts sub-circuits of libraries

---
 spicelib/editor/asc_editor.py     |  6 +-----
 spicelib/editor/base_schematic.py | 11 +++++++++++
 spicelib/editor/qsch_editor.py    |  6 +-----
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 1053b42..b3a5aa3 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -285,11 +285,6 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
                         size = value.size
                         asc.write(f"WINDOW {num_ref} {posX} {posY} {alignment} {size}" + END_LINE_TERM)
                 asc.write(f"SYMATTR InstName {component.reference}" + END_LINE_TERM)
-                if component.reference.startswith('X') and "_SUBCKT" in component.attributes:
-                    # writing the sub-circuit if it was updated
-                    sub_circuit: AscEditor = component.attributes['_SUBCKT']
-                    if sub_circuit is not None and sub_circuit.updated():
-                        sub_circuit.save_as(sub_circuit.circuit_file)
                 for attr, value in component.attributes.items():
                     if not attr.startswith('_'):  # All these are not exported since they are only used internally
                         asc.write(f"SYMATTR {attr} {value}" + END_LINE_TERM)
@@ -314,6 +309,7 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         finally:
             if not isinstance(run_netlist_file, io.StringIO):
                 asc.close()
+        self._save_subcircuits()
 
     def save_as(self, new_circuit_filepath: str | Path) -> None:
         """
diff --git a/spicelib/editor/base_schematic.py b/spicelib/editor/base_schematic.py
index f112859..fa600b1 100644
--- a/spicelib/editor/base_schematic.py
+++ b/spicelib/editor/base_schematic.py
@@ -425,5 +425,16 @@ class BaseSchematic(BaseEditor):
         self.netlist_updates.add_update(name, value, updates)
         self.canvas_updated = True
 
+    def _save_subcircuits(self):
+        """Internal function. Do not use.
+        Saves the schematics of the blocks that were updated, at all levels of the hierarchy."""
+        for component in self.components.values():
+            subcircuit = component.attributes.get('_SUBCKT')
+            if isinstance(subcircuit, BaseSchematic):
+                if subcircuit.updated():
+                    subcircuit.save_as(subcircuit.circuit_file)
+                else:
+                    subcircuit._save_subcircuits()
+
     def updated(self):
         return self.canvas_updated or len(self.netlist_updates) > 0
diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 3e0e02d..b61836a 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -602,11 +602,7 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
                 qsch_file.write(self.schematic.out(0))
                 qsch_file.write('\n')  # Terminates the new line
         # now checks if there are subcircuits that need to be saved
-        for component in self.components.values():
-            if "_SUBCKT" in component.attributes:
-                sub_circuit: QschEditor = component.attributes['_SUBCKT']
-                if sub_circuit is not None and sub_circuit.updated():
-                    sub_circuit.save_as(sub_circuit.circuit_file)
+        self._save_subcircuits()
 
     def write_spice_to_file(self, netlist_file: TextIO, verilog_config: dict[str, list[str]] = {}):
         """
-- 
2.43.0


From 87e86f8ae25ba9350eb472150402de39998b08a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:53 +0000
Subject: [PATCH 112/142] fix: blocks with the same schematic don't overwrite
 the edits of each other

---
 spicelib/editor/asc_editor.py     |  6 +++---
 spicelib/editor/base_schematic.py | 20 +++++++++++++++++++-
 spicelib/editor/qsch_editor.py    |  6 +++---
 3 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index b3a5aa3..59aa0d2 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -220,8 +220,8 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
     :meta hide-value:
     """
     
-    def __init__(self, asc_filename: str|Path, encoding='autodetect'):
-        super().__init__(asc_filename)
+    def __init__(self, asc_filename: str|Path, encoding='autodetect', sheets: dict | None = None):
+        super().__init__(asc_filename, sheets)
         self.symbol_cache = {}  # symbol files found, schematics in other directories may have others
         self.version = 4
         self.sheet = "1 0 0"  # Three values are present on the SHEET clause
@@ -500,7 +500,7 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
                                                      )
             if asc_path is None:
                 raise FileNotFoundError(f"File {asc_filename} not found")
-            answer = AscEditor(asc_path)
+            answer = self._get_sheet(asc_path)
         elif lib is None and symbol.symbol_type == "CELL":
             # TODO: the library is often specified later on, so this may need to move.
             return None            
diff --git a/spicelib/editor/base_schematic.py b/spicelib/editor/base_schematic.py
index fa600b1..2739ae1 100644
--- a/spicelib/editor/base_schematic.py
+++ b/spicelib/editor/base_schematic.py
@@ -18,6 +18,7 @@
 
 import dataclasses
 import enum
+from pathlib import Path
 from typing import Callable
 from collections import OrderedDict
 import logging
@@ -281,8 +282,10 @@ class BaseSchematic(BaseEditor):
     classes.
     """
 
-    def __init__(self, filename):
+    def __init__(self, filename, sheets: dict | None = None):
         super().__init__(filename)
+        self._is_top = sheets is None
+        self._sheets = {} if sheets is None else sheets  # editors of the schematics of the blocks, at all levels
         self.components: OrderedDict[str, SchematicComponent] = OrderedDict()
         self.wires: list[Line] = []
         self.labels: list[Text] = []
@@ -295,6 +298,13 @@ class BaseSchematic(BaseEditor):
     def reset_netlist(self, **kwargs) -> bool:
         """Resets the netlist to the original state"""
         ans = super().reset_netlist()
+        if self._is_top:
+            self._sheets.clear()
+        else:
+            for component in self.components.values():
+                subcircuit = component.attributes.get('_SUBCKT')
+                if isinstance(subcircuit, BaseSchematic):
+                    subcircuit.reset_netlist()
         self.components.clear()
         self.wires.clear()
         self.labels.clear()
@@ -425,6 +435,14 @@ class BaseSchematic(BaseEditor):
         self.netlist_updates.add_update(name, value, updates)
         self.canvas_updated = True
 
+    def _get_sheet(self, filename: str | Path):
+        """Internal function. Do not use.
+        Returns the editor of the schematic of a block. The blocks that have the same schematic share its editor."""
+        path = Path(filename).resolve()
+        if path not in self._sheets:
+            self._sheets[path] = type(self)(filename, sheets=self._sheets)
+        return self._sheets[path]
+
     def _save_subcircuits(self):
         """Internal function. Do not use.
         Saves the schematics of the blocks that were updated, at all levels of the hierarchy."""
diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index b61836a..ef62237 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -575,8 +575,8 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
     :meta hide-value:
     """    
 
-    def __init__(self, qsch_filename: str | Path, **kwargs):
-        super().__init__(qsch_filename)
+    def __init__(self, qsch_filename: str | Path, sheets: dict | None = None, **kwargs):
+        super().__init__(qsch_filename, sheets)
         self.schematic = None
         # read the file into memory
         self.reset_netlist(**kwargs)
@@ -987,7 +987,7 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
                     mydir = self.circuit_file.parent.absolute().as_posix()
                     sub_circuit_schematic_file = self._qsch_file_find(sub_circuit_name, mydir)
                     if sub_circuit_schematic_file:
-                        sub_schematic = QschEditor(sub_circuit_schematic_file)
+                        sub_schematic = self._get_sheet(sub_circuit_schematic_file)
                         sch_comp.attributes['_SUBCKT'] = sub_schematic  # Store it for future use.
                     else:
                         _logger.warning(f"Subcircuit '{sub_circuit_name}' not found. Have you set the correct search paths?")
-- 
2.43.0


From 16f47a9e3393e6b0130bf80fac018a9bf5a7f021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:53 +0000
Subject: [PATCH 113/142] fix: editing a component of a library through a
 schematic raises instead of doing nothing

---
 spicelib/editor/asc_editor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 59aa0d2..ae228b4 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -608,8 +608,8 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
 
         if sub_circuit != self:  # The component is in a subcircuit
             if isinstance(sub_circuit, SpiceCircuit):
-                _logger.warning(f"Component {device} is in an Spice subcircuit. "
-                                f"This function may not work as expected.")
+                # libraries can't be changed, it raises PermissionError
+                return sub_circuit.set_component_value(ref, value)
             elif isinstance(sub_circuit, AscEditor):
                 return sub_circuit.set_component_value(ref, value)
             else:
-- 
2.43.0


From 75686cb0057564144a5d38567b0a3ac60a81ecd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:53 +0000
Subject: [PATCH 114/142] fix: a component without sub-circuit has no
 components inside, ComponentNotFoundError is raised

---
 spicelib/editor/base_schematic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/base_schematic.py b/spicelib/editor/base_schematic.py
index 2739ae1..5587a57 100644
--- a/spicelib/editor/base_schematic.py
+++ b/spicelib/editor/base_schematic.py
@@ -332,7 +332,9 @@ class BaseSchematic(BaseEditor):
             sub_ref, sub_comp = reference.split(SUBCKT_DIVIDER, 1)
 
             subckt = self.get_component(sub_ref)
-            subcircuit = subckt.attributes['_SUBCKT']
+            subcircuit = subckt.attributes.get('_SUBCKT')
+            if subcircuit is None:
+                raise ComponentNotFoundError(f"Component {sub_ref} has no sub-circuit")
             return subcircuit, sub_comp
         else:
             return self, reference
-- 
2.43.0


From f6c4fb87cbd44fab9a9f700d213ce774095c3cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:53 +0000
Subject: [PATCH 115/142] fix: models, attributes and positions of components
 inside blocks are saved with the schematic of the block

---
 spicelib/editor/asc_editor.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index ae228b4..d2f6200 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -530,9 +530,13 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         return component.position, component.rotation
 
     def set_component_position(self, reference: str, position: Point, rotation: ERotation) -> None:
+        sub_circuit, ref = self._get_parent(reference)
+        if sub_circuit != self:  # The component is in a subcircuit
+            return sub_circuit.set_component_position(ref, position, rotation)
         component = self.get_component(reference)
         component.position = position
         component.rotation = rotation
+        self.canvas_updated = True
 
     def _find_parameters(self):
         """Iterates over the parameters of the schematic. Gives the directive, the statement of the directive and the
@@ -619,6 +623,9 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
             return component.set_value(value)
 
     def set_element_model(self, element: str, model: str) -> None:
+        sub_circuit, ref = self._get_parent(element)
+        if sub_circuit != self:  # The component is in a subcircuit
+            return sub_circuit.set_element_model(ref, model)
         component = self.get_component(element)
         if self.begin_update() == UpdatePermission.Deny:
             raise PermissionError(f"Permission denied for changing the model of component {element}")
@@ -628,6 +635,9 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
 
     def set_component_attribute(self, reference: str, attribute: str, value: str) -> None:
         # docstring inherited from BaseSubCircuit
+        sub_circuit, ref = self._get_parent(reference)
+        if sub_circuit != self:  # The component is in a subcircuit
+            return sub_circuit.set_component_attribute(ref, attribute, value)
         if self.begin_update() == UpdatePermission.Deny:
             raise PermissionError(f"Permission denied for attribute {attribute} of component {reference}")
         self.get_component(reference).attributes[attribute] = value
-- 
2.43.0


From dce9f7829b5f7b2ee85450ea016a09994b28a18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:16 +0000
Subject: [PATCH 116/142] fix: a block that is given another schematic has the
 components of that one

---
 spicelib/editor/asc_editor.py  |  2 ++
 spicelib/editor/qsch_editor.py | 37 ++++++++++++++++++----------------
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index d2f6200..e1db4b7 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -630,6 +630,8 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         if self.begin_update() == UpdatePermission.Deny:
             raise PermissionError(f"Permission denied for changing the model of component {element}")
         component.symbol = model
+        if '_SUBCKT' in component.attributes:  # it has another one now
+            component.attributes['_SUBCKT'] = self._get_subcircuit(self._get_symbol(model))
         _logger.info(f"Component {element} updated to {model}")
         self.end_update(element, model, UpdateType.UpdateComponentValue)
 
diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index ef62237..2aff9ba 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -409,6 +409,7 @@ class QschComponent(SchematicComponent):
         assert texts[QSCH_SYMBOL_TEXT_REFDES].get_attr(QSCH_TEXT_STR_ATTR) == self.reference
         texts[QSCH_SYMBOL_TEXT_VALUE].set_attr(QSCH_TEXT_STR_ATTR, model)
         self.attributes['value'] = model
+        parent._find_subcircuit(self)
         _logger.info(f"Component {self.reference} updated to {model}")
         if permission == UpdatePermission.Inform:
             reference : str = self.reference
@@ -929,7 +930,6 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
 
         components = self.schematic.get_items('component')
         for component in components:
-            have_embedded_subcircuit = False
             symbol: QschTag = component.get_items('symbol')[0]
             texts = symbol.get_items('text')
             if len(texts) < 2:
@@ -942,10 +942,6 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             sch_comp.position = Point(x, y)
             sch_comp.rotation = ERotation(orientation * 45)
             sch_comp.attributes['type'] = symbol.get_text('type', "X")  # Assuming a sub-circuit
-            # a bit complicated way to detect embedded subcircuits: they are in the library tag,
-            lib = symbol.get_text('library file', "-")
-            if lib.startswith("|.subckt"):
-                have_embedded_subcircuit = True
             sch_comp.attributes['description'] = symbol.get_text('description', "No Description")
             sch_comp.attributes['value'] = value
             sch_comp.attributes['tag'] = component
@@ -979,18 +975,7 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
 
             sch_comp.ports = ports
             self.components[refdes] = sch_comp
-            if refdes.startswith('X'):
-                if sch_comp.attributes['type'].startswith("Ø"):
-                    have_embedded_subcircuit = True
-                if not have_embedded_subcircuit:
-                    sub_circuit_name = value + os.path.extsep + 'qsch'
-                    mydir = self.circuit_file.parent.absolute().as_posix()
-                    sub_circuit_schematic_file = self._qsch_file_find(sub_circuit_name, mydir)
-                    if sub_circuit_schematic_file:
-                        sub_schematic = self._get_sheet(sub_circuit_schematic_file)
-                        sch_comp.attributes['_SUBCKT'] = sub_schematic  # Store it for future use.
-                    else:
-                        _logger.warning(f"Subcircuit '{sub_circuit_name}' not found. Have you set the correct search paths?")
+            self._find_subcircuit(sch_comp)
 
         for text_tag in self.schematic.get_items('text'):
             x, y = text_tag.get_attr(QSCH_TEXT_POS) # pyright: ignore[reportGeneralTypeIssues]
@@ -1055,6 +1040,24 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             containers = [work_dir] + containers  # put work directory first
         return search_file_in_containers(filename, *containers)
 
+    def _find_subcircuit(self, component: 'QschComponent') -> None:
+        """Internal function. Do not use.
+        Finds the schematic of a hierarchical block, which is the file that has the name given by the value of the block."""
+        component.attributes.pop('_SUBCKT', None)
+        # a bit complicated way to detect embedded subcircuits: they are in the library tag,
+        lib = component.symbol_tag.get_text('library file', "-")
+        if (not component.reference.startswith('X') or component.attributes.get('type', 'X').startswith("Ø")
+                or lib.startswith("|.subckt")):
+            return
+        sub_circuit_name = component.attributes['value'] + os.path.extsep + 'qsch'
+        mydir = self.circuit_file.parent.absolute().as_posix()
+        sub_circuit_schematic_file = self._qsch_file_find(sub_circuit_name, mydir)
+        if sub_circuit_schematic_file:
+            # Store it for future use.
+            component.attributes['_SUBCKT'] = self._get_sheet(sub_circuit_schematic_file)
+        else:
+            _logger.warning(f"Subcircuit '{sub_circuit_name}' not found. Have you set the correct search paths?")
+
     def get_subcircuit(self, reference: str) -> 'QschEditor':
         """Returns an QschEditor file corresponding to the symbol"""
         subcircuit = self.get_component(reference)
-- 
2.43.0


From 35428575838f9154070ac02fe0933b725fd0d489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:03 +0000
Subject: [PATCH 117/142] fix: hierarchical blocks with references that don't
 start with X are written to the netlist

---
 spicelib/editor/qsch_editor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 2aff9ba..7def809 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -1046,8 +1046,8 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
         component.attributes.pop('_SUBCKT', None)
         # a bit complicated way to detect embedded subcircuits: they are in the library tag,
         lib = component.symbol_tag.get_text('library file', "-")
-        if (not component.reference.startswith('X') or component.attributes.get('type', 'X').startswith("Ø")
-                or lib.startswith("|.subckt")):
+        is_block = component.reference.startswith('X') or component.attributes.get('type', 'X') == 'X'
+        if not is_block or component.attributes.get('type', 'X').startswith("Ø") or lib.startswith("|.subckt"):
             return
         sub_circuit_name = component.attributes['value'] + os.path.extsep + 'qsch'
         mydir = self.circuit_file.parent.absolute().as_posix()
-- 
2.43.0


From 4c68316967905bd8a197b8b6588376da9cabc352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:50 +0000
Subject: [PATCH 118/142] fix: the edits inside of a sub-circuit definition are
 kept in the copies made of it

---
 spicelib/editor/spice_subcircuit_instance.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/spicelib/editor/spice_subcircuit_instance.py b/spicelib/editor/spice_subcircuit_instance.py
index 58fdd26..4f2756b 100644
--- a/spicelib/editor/spice_subcircuit_instance.py
+++ b/spicelib/editor/spice_subcircuit_instance.py
@@ -66,6 +66,15 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
             self.shadow_subcircuit = self._subcircuit.clone(self, new_name=new_name)
         return self.shadow_subcircuit
 
+    def clone(self, new_parent=None):
+        """Clones the instance, together with the changes that were made inside of it."""
+        newone = super().clone(new_parent)
+        if self.was_modified:
+            newone._subcircuit = self._subcircuit
+            newone.shadow_subcircuit = self.shadow_subcircuit.clone(newone)
+            newone.shadow_subcircuit._modified = True
+        return newone
+
     def get_subcircuit_named(self, name: str) -> BaseSubCircuit | None:
         """Returns the sub-circuit instance with the given name. This is used to get the sub-circuit instance of a sub-circuit instance."""
         if self.parent:
-- 
2.43.0


From b66683e03bf34abf3fb7451755d9045c2182e9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:20 +0000
Subject: [PATCH 119/142] fix: instances of a sub-circuit follow the edits of
 its definition after having been read

---
 spicelib/editor/spice_components.py          |  9 +++++
 spicelib/editor/spice_subcircuit.py          | 35 ++++++++++++++++++++
 spicelib/editor/spice_subcircuit_instance.py | 27 +++++++++++++--
 3 files changed, 69 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/spice_components.py b/spicelib/editor/spice_components.py
index 14f9932..698df3c 100644
--- a/spicelib/editor/spice_components.py
+++ b/spicelib/editor/spice_components.py
@@ -474,6 +474,15 @@ class SpiceComponent(Component):
         if perm == UpdatePermission.Inform:
             SpiceComponent.end_update(self, f'{self.reference}:{key}', value, update)
 
+    def update_clone(self, origin: 'SpiceComponent'):
+        """Updates a clone, after a change of the component that it was cloned from.
+
+        :meta private:
+        """
+        self._obj = origin._obj
+        self._reference = origin._reference
+        self._attributes = origin._attributes
+
     def begin_update(self) -> UpdatePermission:
         return self._netlist.begin_update() if self._netlist else UpdatePermission.Initializing
 
diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 40a790d..f7d8589 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -203,6 +203,7 @@ class SpiceCircuit(BaseSubCircuit):
     def __init__(self, parent: "SpiceCircuit" = None): # pyright: ignore[reportArgumentType]
         super().__init__(parent)
         self.netlist = []
+        self.edit_count = 0
 
     def _add_lines(self, line_iter):
         """Internal function. Do not use.
@@ -440,6 +441,40 @@ class SpiceCircuit(BaseSubCircuit):
         clone.update_permission = UpdatePermission.Inform
         return clone
 
+    def update_clone(self, origin: 'SpiceCircuit') -> None:
+        """Updates a clone that has no changes of its own, after an edit of the circuit it was cloned from. The components
+        and circuits that remain keep being the same objects.
+
+        :meta private:
+        """
+        self._take_over(origin.clone(self.parent, new_name=self.name()))
+
+    def _take_over(self, clone: 'SpiceCircuit') -> None:
+        """Internal function. Do not use."""
+        components = {item.reference: item for item in self.netlist if isinstance(item, SpiceComponent)}
+        circuits = {item.name().upper(): item for item in self.netlist if isinstance(item, SpiceCircuit)}
+        self.netlist[:] = clone.netlist
+        self.edit_count += 1
+        for i, item in enumerate(self.netlist):
+            if isinstance(item, SpiceCircuit):
+                known = circuits.get(item.name().upper())
+                if known is not None:
+                    known._take_over(item)
+                    self.netlist[i] = known
+                else:
+                    item.parent = self
+            elif isinstance(item, Primitive):
+                known = components.get(item.reference) if isinstance(item, SpiceComponent) else None
+                if type(known) is type(item):
+                    known.update_clone(item)
+                    self.netlist[i] = known
+                else:
+                    item._netlist = self
+
+    def end_update(self, name: str, value: ValueType | None, updates: UpdateType):
+        self.edit_count += 1
+        super().end_update(name, value, updates)
+
     def name(self) -> str:
         """
         Returns the name of the Sub-Circuit.
diff --git a/spicelib/editor/spice_subcircuit_instance.py b/spicelib/editor/spice_subcircuit_instance.py
index 4f2756b..8fcc88e 100644
--- a/spicelib/editor/spice_subcircuit_instance.py
+++ b/spicelib/editor/spice_subcircuit_instance.py
@@ -39,6 +39,7 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         SpiceComponent.__init__(self, *ars, **kwargs)
         self._subcircuit = None
         self.shadow_subcircuit = None
+        self._shadow_origin = None  # The definition that was copied and the edits that it had by then
 
     def reset_attributes(self):
         """Resets the sub-circuit instance to its original state."""
@@ -55,7 +56,6 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
             self._subcircuit = self._netlist.get_subcircuit_named(self.value_str) # pyright: ignore[reportOptionalMemberAccess]
             if self._subcircuit is None:
                 raise AssertionError(f"Couldn't find the subcircuit named \"{self.value}\"")
-            self.shadow_subcircuit = None
         if self.shadow_subcircuit is None:
             # In all cases it creates a new copy of the subcircuit, it is only writen to the netlist if it was modified.
             new_name = base_name = self.value_str + '_' + self.reference
@@ -64,6 +64,11 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
                 i += 1
                 new_name = f'{base_name}_{i}'
             self.shadow_subcircuit = self._subcircuit.clone(self, new_name=new_name)
+            self._shadow_origin = (self._subcircuit, self._subcircuit.edit_count)
+        elif not self.was_modified and self._shadow_origin != (self._subcircuit, self._subcircuit.edit_count):
+            # The definition was edited after the copy was made
+            self.shadow_subcircuit.update_clone(self._subcircuit)
+            self._shadow_origin = (self._subcircuit, self._subcircuit.edit_count)
         return self.shadow_subcircuit
 
     def clone(self, new_parent=None):
@@ -95,9 +100,27 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         """Returns True if the sub-circuit was modified, False otherwise."""
         return self.shadow_subcircuit is not None and self.shadow_subcircuit._modified
 
+    def update_clone(self, origin: 'SpiceCircuitInstance'):
+        """Updates a clone of an instance. The copy of the sub-circuit is updated when it is used."""
+        shadow = self.shadow_subcircuit if self.value_str == origin.value_str else None
+        super().update_clone(origin)
+        self._subcircuit = None
+        if origin.was_modified:
+            self._subcircuit = origin._subcircuit
+            if shadow is None:
+                shadow = origin.shadow_subcircuit
+                shadow.parent = self
+            else:
+                shadow.update_clone(origin.shadow_subcircuit)
+                shadow._modified = True
+        self.shadow_subcircuit = shadow
+
     def begin_update(self) -> UpdatePermission:
         netlist: BaseSubCircuit = self._netlist # pyright: ignore[reportAssignmentType]
-        return netlist.begin_update()
+        permission = netlist.begin_update()
+        if self.shadow_subcircuit is not None:
+            self.subcircuit  # Makes sure that the update is done on top of the current definition
+        return permission
 
     def end_update(self, name: str, value: ValueType | None, updates: UpdateType):
         netlist: BaseSubCircuit = self._netlist # pyright: ignore[reportAssignmentType]
-- 
2.43.0


From d8c1e18e68a0c1d6e834ba1ea87c10726fe458a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:33 +0000
Subject: [PATCH 120/142] fix: the pin configuration of verilog components is
 given to the blocks of a QSPICE schematic

---
 spicelib/editor/qsch_editor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 7def809..ac4635d 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -763,7 +763,7 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             sub_circuit_schematic, ports = subcircuits_to_write[sub_circuit]
             netlist_file.write("\n")
             netlist_file.write(f".subckt {sub_circuit} {ports}\n")
-            sub_circuit_schematic.write_spice_to_file(netlist_file)
+            sub_circuit_schematic.write_spice_to_file(netlist_file, verilog_config)
             netlist_file.write(f".ends {sub_circuit}\n")
             netlist_file.write("\n")
 
-- 
2.43.0


From f4fdae41fbf974a970ced4e6f07c9f1c8cf5db49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:33 +0000
Subject: [PATCH 121/142] fix: embedded models of QSPICE components with names
 that have other characters than letters and digits

---
 spicelib/editor/qsch_editor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index ac4635d..49fb9e9 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -673,9 +673,9 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             library_name = symbol_tag.get_text('library file', default="")
             if library_name.startswith('|'):
                 # make a regular expression that will prefix the model or subcircuit with {refdes}•{model}
-                new_line = re.sub(r"^\|\.(model|subckt) (\w+) (.*)",
+                new_line = re.sub(r"^\|\.(model|subckt) (\S+) (.*)",
                                   fr".\1 {refdes}•\2 \3",
-                                  library_name, flags=re.MULTILINE)
+                                  library_name, flags=re.MULTILINE | re.IGNORECASE)
                 new_line = new_line.replace("\\n", "\n")
                 netlist_file.write(new_line + '\n')
                 model = f"{refdes}•{model}"
-- 
2.43.0


From a906a675646072da3ebd1a6bcc379f27d21bd541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:37 +0000
Subject: [PATCH 122/142] fix: positions and nodes that a schematic answers or
 is given are not shared with the caller

---
 spicelib/editor/asc_editor.py      | 4 ++--
 spicelib/editor/base_schematic.py  | 4 ++--
 spicelib/editor/base_subcircuit.py | 2 +-
 spicelib/editor/qsch_editor.py     | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index e1db4b7..2981cc6 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -527,14 +527,14 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
 
     def get_component_position(self, reference: str) -> tuple[Point, ERotation]:
         component = self.get_component(reference)
-        return component.position, component.rotation
+        return Point(component.position.X, component.position.Y), component.rotation
 
     def set_component_position(self, reference: str, position: Point, rotation: ERotation) -> None:
         sub_circuit, ref = self._get_parent(reference)
         if sub_circuit != self:  # The component is in a subcircuit
             return sub_circuit.set_component_position(ref, position, rotation)
         component = self.get_component(reference)
-        component.position = position
+        component.position = Point(position.X, position.Y)
         component.rotation = rotation
         self.canvas_updated = True
 
diff --git a/spicelib/editor/base_schematic.py b/spicelib/editor/base_schematic.py
index 5587a57..134a50d 100644
--- a/spicelib/editor/base_schematic.py
+++ b/spicelib/editor/base_schematic.py
@@ -360,7 +360,7 @@ class BaseSchematic(BaseEditor):
     def get_component_position(self, reference: str) -> tuple[Point, ERotation]:
         """Returns the position and rotation of the component"""
         comp = self.get_component(reference)
-        return comp.position, comp.rotation
+        return Point(comp.position.X, comp.position.Y), comp.rotation
 
     def set_component_position(self, reference: str, position: Point, rotation: ERotation) -> None:
         """Sets the position and rotation of the component.
@@ -370,7 +370,7 @@ class BaseSchematic(BaseEditor):
         :param rotation: The new rotation of the component
         """
         comp = self.get_component(reference)
-        comp.position = position
+        comp.position = Point(position.X, position.Y)
         comp.rotation = rotation
         self.canvas_updated = True
 
diff --git a/spicelib/editor/base_subcircuit.py b/spicelib/editor/base_subcircuit.py
index f373488..c5a8de4 100644
--- a/spicelib/editor/base_subcircuit.py
+++ b/spicelib/editor/base_subcircuit.py
@@ -119,7 +119,7 @@ class BaseSubCircuit(ABC):
                  KeyError - In case the port is not found
 
         """
-        return self.get_component(reference).ports
+        return list(self.get_component(reference).ports)
 
     @abstractmethod
     def get_parameter(self, param: str) -> str:
diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 49fb9e9..7b63e5a 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -543,7 +543,7 @@ class QschComponent(SchematicComponent):
         if isinstance(position, tuple):
             position = Point(position[0], position[1])
         elif isinstance(position, Point):
-            pass
+            position = Point(position.X, position.Y)
         else:
             raise ValueError("Invalid position object")
         if isinstance(rotation, ERotation):
@@ -1184,7 +1184,7 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
     def get_component_position(self, reference: str) -> tuple[Point, ERotation]:
         # docstring inherited from BaseSchematic
         component = self.get_component(reference)
-        return component.position, component.rotation
+        return Point(component.position.X, component.position.Y), component.rotation
 
     def set_component_position(self, reference: str,
                                position: Point | tuple,
-- 
2.43.0


From e45c060aab506347182f381f4332747ab3faf070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:32 +0000
Subject: [PATCH 123/142] fix: the callback arguments of a launch are those
 given at the launch

---
 spicelib/sim/sim_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 54f7590..19fcb67 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -508,7 +508,7 @@ class SimRunner(AnyRunner):
                 # Convert into a dictionary
                 return {param: callback_args[pos - 2] for pos, param in enumerate(args) if pos > 1}
             else:
-                return callback_args
+                return dict(callback_args)  # the caller may use its dictionary again before the callback is called
 
     def run(self, netlist: str | Path | BaseEditor, *,
             wait_resource: bool = True,
-- 
2.43.0


From c4b4beca0a9b96e8fc4cb435741df68e3b8bc67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:37 +0000
Subject: [PATCH 124/142] fix: a testbench prepared again starts from the
 original circuit

---
 spicelib/sim/tookit/montecarlo.py                 | 1 +
 spicelib/sim/tookit/quick_sensitivity_analysis.py | 1 +
 spicelib/sim/tookit/tolerance_deviations.py       | 7 ++++++-
 spicelib/sim/tookit/worst_case.py                 | 1 +
 4 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/spicelib/sim/tookit/montecarlo.py b/spicelib/sim/tookit/montecarlo.py
index 3db762d..f2accd2 100644
--- a/spicelib/sim/tookit/montecarlo.py
+++ b/spicelib/sim/tookit/montecarlo.py
@@ -69,6 +69,7 @@ class Montecarlo(ToleranceDeviations):
         tol_uni_func = False
         tol_norm_func = False
         self.elements_analysed.clear()
+        self._remove_testbench()
         self.play_instructions()  # The deviations are applied on the values given by the user
         for ref in self.get_components('*'):
             val, dev = self.get_component_value_deviation_type(ref)  # get there present value
diff --git a/spicelib/sim/tookit/quick_sensitivity_analysis.py b/spicelib/sim/tookit/quick_sensitivity_analysis.py
index e8538b2..704dfe1 100644
--- a/spicelib/sim/tookit/quick_sensitivity_analysis.py
+++ b/spicelib/sim/tookit/quick_sensitivity_analysis.py
@@ -33,6 +33,7 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
 
     def prepare_testbench(self, **kwargs):
         """Prepares the simulation by setting the tolerances for each component"""
+        self._remove_testbench()
         self.play_instructions()  # The deviations are applied on the values given by the user
         no = 0
         self.elements_analysed.clear()
diff --git a/spicelib/sim/tookit/tolerance_deviations.py b/spicelib/sim/tookit/tolerance_deviations.py
index 155c356..916d03b 100644
--- a/spicelib/sim/tookit/tolerance_deviations.py
+++ b/spicelib/sim/tookit/tolerance_deviations.py
@@ -90,7 +90,7 @@ class ToleranceDeviations(SimAnalysis, ABC):
         self.default_tolerance = {prefix: ComponentDeviation.none() for prefix in self.devices_with_deviation_allowed}
         self.device_deviations.clear()
         self.parameter_deviations.clear()
-        self.testbench_prepared = False
+        self._remove_testbench()
         self.last_run_number = 0
 
     def clear_simulation_data(self):
@@ -165,6 +165,11 @@ class ToleranceDeviations(SimAnalysis, ABC):
         super()._reset_netlist()
         self.testbench_prepared = False
 
+    def _remove_testbench(self):
+        """The deviations of an earlier preparation don't stay on the netlist"""
+        if self.testbench_prepared:
+            self._reset_netlist()
+
     @abstractmethod
     def prepare_testbench(self, **kwargs):
         ...
diff --git a/spicelib/sim/tookit/worst_case.py b/spicelib/sim/tookit/worst_case.py
index 5b12a4c..70a94c2 100644
--- a/spicelib/sim/tookit/worst_case.py
+++ b/spicelib/sim/tookit/worst_case.py
@@ -67,6 +67,7 @@ class WorstCaseAnalysis(ToleranceDeviations):
 
     def prepare_testbench(self, **kwargs):
         """Prepares the simulation by setting the tolerances for the components"""
+        self._remove_testbench()
         self.play_instructions()  # The deviations are applied on the values given by the user
         index = 0
         self.elements_analysed.clear()
-- 
2.43.0


From 1c07fb20577e8fa8ff8303c53ba000c89e146853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:30 +0000
Subject: [PATCH 125/142] fix: included files are read in their own encoding

---
 spicelib/editor/spice_editor.py     | 8 +++++++-
 spicelib/editor/spice_subcircuit.py | 7 ++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/spicelib/editor/spice_editor.py b/spicelib/editor/spice_editor.py
index 7534630..1e819bb 100644
--- a/spicelib/editor/spice_editor.py
+++ b/spicelib/editor/spice_editor.py
@@ -68,13 +68,19 @@ class SpiceEditor(SpiceFile):
     """
 
     def __init__(self, netlist_file: Path | str, encoding='autodetect', **kwargs):
+        self.encoding_autodetected = encoding == 'autodetect'
         if kwargs.get('create_blank', False):
             if encoding == 'autodetect':
                 encoding = 'utf-8'
             else:
                 encoding = encoding
         else:
-            if encoding == 'autodetect':
+            if encoding == 'autodetect' and kwargs.get('include_file', False):
+                try:
+                    encoding = detect_encoding(netlist_file)  # These files can start with anything
+                except EncodingDetectError:
+                    encoding = 'utf-8'  # There is nothing in the file
+            elif encoding == 'autodetect':
                 try:
                     encoding = detect_encoding(netlist_file, r'^(?:\*|\.title)')  # Normally, the file will start with a '*' except for KiCad that can start with '.title'
                 except EncodingDetectError as err:
diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index f7d8589..626a1be 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -1180,9 +1180,10 @@ class IncludeFile(Primitive):
             if include_file:
                 from .spice_editor import SpiceEditor
                 try:
-                    encoding = getattr(self._netlist, 'encoding', None)
-                    if encoding is None:
-                        parent_editor = getattr(self._netlist, 'editor', None)
+                    parent_editor = self._netlist if hasattr(self._netlist, 'encoding') else getattr(self._netlist, 'editor', None)
+                    if getattr(parent_editor, 'encoding_autodetected', False):
+                        encoding = 'autodetect'  # it may not be the encoding of the file that includes it
+                    else:
                         encoding = getattr(parent_editor, 'encoding', None)
                     editor = SpiceEditor(include_file, encoding=encoding, include_file=True)
                 except Exception as e:
-- 
2.43.0


From 9d9032fafc227ee1e9ba3f72436254ab25f7c0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:55 +0000
Subject: [PATCH 126/142] fix: wires touch the points they pass through,
 whatever their slope

---
 spicelib/editor/base_schematic.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/spicelib/editor/base_schematic.py b/spicelib/editor/base_schematic.py
index 134a50d..5dd0925 100644
--- a/spicelib/editor/base_schematic.py
+++ b/spicelib/editor/base_schematic.py
@@ -179,14 +179,9 @@ class Line:
                     return True
         else:
             # The time saving tricks are over, the line is oblique, so, we have to do the math
-            # The line is defined by the equation y = m*x + b
-            # where m is the slope and b is the y intercept
-            m = (self.V2.Y - self.V1.Y) / (self.V2.X - self.V1.X)
-            b = self.V1.Y - m * self.V1.X
-            # Now we can calculate the Y value for the given X
-            y = m * point.X + b
-            # If the Y value is the same as the point Y, then the line passes through the point
-            if y == point.Y:
+            # The point is on the line when the slope from the first vertex is the same to the point and to the second vertex
+            # The equation is written without divisions, as they would need rounding
+            if (self.V2.X - self.V1.X) * (point.Y - self.V1.Y) == (self.V2.Y - self.V1.Y) * (point.X - self.V1.X):
                 # Now we have to check if the point is within the line segment
                 if min(self.V1.X, self.V2.X) <= point.X <= max(self.V1.X, self.V2.X):
                     return True
-- 
2.43.0


From 8642e348b490eb86a2639284a8c31fc1583b9684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:06 +0000
Subject: [PATCH 127/142] fix: the pins of a converted symbol have the order of
 the nodes

---
 spicelib/editor/asy_reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/asy_reader.py b/spicelib/editor/asy_reader.py
index 2ef2bf9..d2da22b 100644
--- a/spicelib/editor/asy_reader.py
+++ b/spicelib/editor/asy_reader.py
@@ -265,14 +265,18 @@ class AsyReader:
                                     f' 1 7 0 0x1000000 -1 -1 "{arg}"»')
             symbol.items.append(text)
 
+        pins = []
         for pin in self.pins:
-            coord = pin.coord
             attr_dict = {}
             for pair in pin.text.split(";"):
                 if '=' in pair:
                     k, v = pair.split('=', maxsplit=1)
                     attr_dict[k] = v
+            pins.append((pin.coord, attr_dict))
 
+        # On QSpice the order of the pins is the order of the nodes in the netlist
+        pins.sort(key=lambda item: float(item[1].get('SpiceOrder', 'inf')))
+        for coord, attr_dict in pins:
             pin_tag, _ = QschTag.parse(f'«pin ({coord.X * SCALE_X:.0f},{coord.Y * SCALE_Y:.0f}) (0,0)'
                                        f' 1 0 0 0x1000000 -1 "{attr_dict.get("PinName", "")}"»')
             symbol.items.append(pin_tag)
-- 
2.43.0


From 53740cdef4e7ffb10d024d067251d29c771264ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:56 +0000
Subject: [PATCH 128/142] fix: rawplot shows the phase of the traces, not the
 phase of their magnitude

---
 spicelib/scripts/rawplot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/scripts/rawplot.py b/spicelib/scripts/rawplot.py
index 4e1149d..2f28fdc 100644
--- a/spicelib/scripts/rawplot.py
+++ b/spicelib/scripts/rawplot.py
@@ -91,13 +91,13 @@ def main():
             if 'complex' in LTR.flags:
                 x = mag(x)
                 ax.set_yscale('log')
+                phase = phase_np(y, deg=True)  # before the wave is replaced by its magnitude
                 y = mag(y)
                 ax.yaxis.label.set_color('blue')
                 ax.set(ylabel=label+'(dB)')
                 ax.plot(x, y)
                 ax_phase = ax.twinx()
-                y = phase_np(y, deg=True)
-                ax_phase.plot(x, y, color='red', linestyle='-.')
+                ax_phase.plot(x, phase, color='red', linestyle='-.')
                 ax_phase.yaxis.label.set_color('red')
                 ax_phase.set(ylabel=label+'Phase (o)')
                 # title = f"{trace.name} Phase [deg]"
-- 
2.43.0


From 9c5b8ce9321b2dc49ba6361f7ab96c4041e08f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:56 +0000
Subject: [PATCH 129/142] fix: the histogram of a log uses the steps that
 respect the conditions

---
 spicelib/scripts/histogram.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spicelib/scripts/histogram.py b/spicelib/scripts/histogram.py
index 11426ec..a6d85f0 100644
--- a/spicelib/scripts/histogram.py
+++ b/spicelib/scripts/histogram.py
@@ -192,12 +192,12 @@ def main():
                     for expression in options.filters:
                         lhs_rhs = expression.split("==")
                         if len(lhs_rhs) == 2:
-                            filters[lhs_rhs[0]] = try_convert_value(lhs_rhs[1])
+                            filters[lhs_rhs[0].strip()] = try_convert_value(lhs_rhs[1])
                         else:
                             print("Unsupported comparison operator in reading .log files.")
                             print("For enhanced comparators convert the file to tlog using LTsteps script")
-                    log.steps_with_conditions(**filters)
-                    values = log.get_measure_values_at_steps(TRACE, options.filters)
+                    steps = log.steps_with_conditions(**filters)
+                    values = log.get_measure_values_at_steps(TRACE, steps)
 
         if len(values) == 0:
             encoding = detect_encoding(logfile)
-- 
2.43.0


From 7e74b42e26d9651f6eeb50ae862ea25d79432291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:12 +0000
Subject: [PATCH 130/142] fix: the conditions of a histogram can name traces
 such as V(N001)

---
 spicelib/scripts/histogram.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/spicelib/scripts/histogram.py b/spicelib/scripts/histogram.py
index a6d85f0..3710a92 100644
--- a/spicelib/scripts/histogram.py
+++ b/spicelib/scripts/histogram.py
@@ -61,6 +61,8 @@ The help can be obtained by calling the script without arguments
 __author__ = "Nuno Canto Brum <nuno.brum@gmail.com>"
 __copyright__ = "Copyright 2017, Fribourg Switzerland"
 
+import re
+
 from spicelib.log.logfile_data import try_convert_value
 from spicelib.utils.detect_encoding import EncodingDetectError, detect_encoding
 
@@ -227,12 +229,18 @@ def main():
                     vs = line.split(sep)
                     values.append(try_convert_value(vs[sav_col]))
             else:
+                # names such as V(N001) are not Python names, so the conditions look them up in the line that is evaluated
+                names = sorted((var for var in vars if var[:1].isalpha() and not var.isidentifier()), key=len, reverse=True)
+                if names:
+                    pattern = re.compile(r"(?<!\w)(" + '|'.join(map(re.escape, names)) + r")(?!\w)")
+                    options.filters = [pattern.sub(lambda m: f"_columns[{m.group()!r}]", expression)
+                                       for expression in options.filters]
                 for line in log:
                     env = {var: try_convert_value(value) for var, value in zip(vars, line.split(sep))}
 
                     for expression in options.filters:
-                        test = eval(expression, None, env)
-                        if test is False:
+                        test = eval(expression, {'_columns': env}, env)
+                        if not test:
                             break
                     else:
                         values.append(try_convert_value(env[TRACE]))
-- 
2.43.0


From 853131d20e1e59b542feb66ca4a697a5fd6ca8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:12 +0000
Subject: [PATCH 131/142] fix: the histogram ignores empty lines and values
 that are not numbers

---
 spicelib/scripts/histogram.py | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/spicelib/scripts/histogram.py b/spicelib/scripts/histogram.py
index 3710a92..c55d82e 100644
--- a/spicelib/scripts/histogram.py
+++ b/spicelib/scripts/histogram.py
@@ -67,6 +67,14 @@ from spicelib.log.logfile_data import try_convert_value
 from spicelib.utils.detect_encoding import EncodingDetectError, detect_encoding
 
 
+def number(text: str):
+    """Converts the text to a value and raises a ValueError if the text is not a number."""
+    value = try_convert_value(text)
+    if isinstance(value, str):
+        raise ValueError(f"'{text}' is not a number")
+    return value
+
+
 def main():
     import numpy as np
     from scipy.stats import norm
@@ -122,9 +130,11 @@ def main():
         text = clipin.paste('text/plain')
 
         if len(args) == 0:
-            for line in text.split('\n'):
+            for line in text.splitlines():
+                if line.strip() == '':
+                    continue
                 try:
-                    values.append(try_convert_value(line))
+                    values.append(number(line))
                 except ValueError:
                     print("Failed to convert line: '", line, "'")
 
@@ -133,7 +143,7 @@ def main():
                 exit(-1)
 
         elif len(args) == 1:  # The user provided the trace name
-            header = text.split('\n')[0]
+            header, *lines = text.splitlines() or ['']
             for sep in ['\t', ';', ',']:
                 if sep in header:
                     break
@@ -148,12 +158,12 @@ def main():
                 print("Clipboard data contains %s" % vars)
                 exit(-1)
 
-            for line in text.split('\n')[1:]:
+            for line in lines:
                 if line.strip() == '':
                     continue
                 vs = line.split(sep)
                 try:
-                    values.append(try_convert_value(vs[sav_col]))
+                    values.append(number(vs[sav_col]))
                 except ValueError:
                     print("Failed to convert value: '", vs[sav_col], "'")
                     continue
@@ -200,6 +210,8 @@ def main():
                             print("For enhanced comparators convert the file to tlog using LTsteps script")
                     steps = log.steps_with_conditions(**filters)
                     values = log.get_measure_values_at_steps(TRACE, steps)
+                # a measurement that failed has no value
+                values = [value for value in values if isinstance(value, (int, float, complex))]
 
         if len(values) == 0:
             encoding = detect_encoding(logfile)
@@ -227,7 +239,10 @@ def main():
             if (options.filters is None) or (len(options.filters) == 0):
                 for line in log:
                     vs = line.split(sep)
-                    values.append(try_convert_value(vs[sav_col]))
+                    try:
+                        values.append(number(vs[sav_col]))
+                    except (ValueError, IndexError):
+                        continue  # an empty line, or a value that is missing
             else:
                 # names such as V(N001) are not Python names, so the conditions look them up in the line that is evaluated
                 names = sorted((var for var in vars if var[:1].isalpha() and not var.isidentifier()), key=len, reverse=True)
@@ -236,6 +251,8 @@ def main():
                     options.filters = [pattern.sub(lambda m: f"_columns[{m.group()!r}]", expression)
                                        for expression in options.filters]
                 for line in log:
+                    if line.strip() == '':
+                        continue
                     env = {var: try_convert_value(value) for var, value in zip(vars, line.split(sep))}
 
                     for expression in options.filters:
@@ -243,7 +260,10 @@ def main():
                         if not test:
                             break
                     else:
-                        values.append(try_convert_value(env[TRACE]))
+                        try:
+                            values.append(number(line.split(sep)[sav_col]))
+                        except (ValueError, IndexError):
+                            continue  # a value that is missing
             log.close()
 
     if len(values) == 0:
-- 
2.43.0


From 1b73443913d8ab8772f42d706dfab8127312084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:34 +0000
Subject: [PATCH 132/142] fix: the unit of RMS currents is Arms

---
 spicelib/utils/float_unit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spicelib/utils/float_unit.py b/spicelib/utils/float_unit.py
index 31e4833..8057bb0 100644
--- a/spicelib/utils/float_unit.py
+++ b/spicelib/utils/float_unit.py
@@ -227,9 +227,9 @@ class Vrms(Unit):
 
 
 class Arms(Unit):
-    one_name = 'Vrms'
-    many_name = 'Vrms'
-    sign = 'Vrms'
+    one_name = 'Arms'
+    many_name = 'Arms'
+    sign = 'Arms'
 
 _MULT = {
     'f': 1E-15,
-- 
2.43.0


From 13930029f53ba3117788025c9c3c8fd4053a9c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:34 +0000
Subject: [PATCH 133/142] fix: numbers with units can be keys of dictionaries
 and elements of sets

---
 spicelib/utils/float_unit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spicelib/utils/float_unit.py b/spicelib/utils/float_unit.py
index 8057bb0..cbad749 100644
--- a/spicelib/utils/float_unit.py
+++ b/spicelib/utils/float_unit.py
@@ -372,6 +372,8 @@ class float_unit(float):
     def __ne__(self, other):
         return not self.__eq__(other)
 
+    __hash__ = float.__hash__  # a class that defines __eq__ isn't hashable otherwise
+
 
 def to_float(value: str | float | int, accept_invalid: bool = True) -> float_unit | str:
     """
-- 
2.43.0


From 368c79dd6bf288ee1c22f847a1d7d71c26520842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:34 +0000
Subject: [PATCH 134/142] fix: numbers with units operate with arrays and
 complex numbers

---
 spicelib/utils/float_unit.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/spicelib/utils/float_unit.py b/spicelib/utils/float_unit.py
index cbad749..939243f 100644
--- a/spicelib/utils/float_unit.py
+++ b/spicelib/utils/float_unit.py
@@ -349,17 +349,24 @@ class float_unit(float):
                 raise KeyError("Unit not supported")
 
 
+    def _operate(self, operation, other):
+        try:
+            other = float(other)
+        except TypeError:  # arrays and complex numbers, they know how to operate with a float
+            return NotImplemented
+        return float_unit(operation(float(self), other))
+
     def __add__(self, other):
-        return float_unit(float.__add__(float(self), float(other)))
+        return self._operate(float.__add__, other)
 
     def __sub__(self, other):
-        return float_unit(float.__sub__(float(self), float(other)))
+        return self._operate(float.__sub__, other)
 
     def __mul__(self, other):
-        return float_unit(float.__mul__(float(self), float(other)))
+        return self._operate(float.__mul__, other)
 
     def __truediv__(self, other):
-        return float_unit(float.__truediv__(float(self), float(other)))
+        return self._operate(float.__truediv__, other)
 
     def __eq__(self, other):
         if isinstance(other, str):
-- 
2.43.0


From 0a49cc82bef58fbdd9e20eda89cbb4ea9d7319ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:45 +0000
Subject: [PATCH 135/142] fix: a number with unit is different from what it can
 not be compared with

---
 spicelib/utils/float_unit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/utils/float_unit.py b/spicelib/utils/float_unit.py
index 939243f..871f4ae 100644
--- a/spicelib/utils/float_unit.py
+++ b/spicelib/utils/float_unit.py
@@ -377,7 +377,8 @@ class float_unit(float):
         return float.__eq__(self, other)
 
     def __ne__(self, other):
-        return not self.__eq__(other)
+        equal = self.__eq__(other)
+        return equal if equal is NotImplemented else not equal
 
     __hash__ = float.__hash__  # a class that defines __eq__ isn't hashable otherwise
 
-- 
2.43.0


From b301756578abdcd82cd5155e6ec93ab637284a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:59 +0000
Subject: [PATCH 136/142] fix: the histogram of a measurement leaves out the
 steps where it failed

---
 spicelib/log/logfile_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/log/logfile_data.py b/spicelib/log/logfile_data.py
index e039ff6..64ed648 100644
--- a/spicelib/log/logfile_data.py
+++ b/spicelib/log/logfile_data.py
@@ -489,7 +489,8 @@ class LogfileData:
         import numpy as np
         from scipy.stats import norm
         import matplotlib.pyplot as plt
-        values = self.get_measure_values_at_steps(param, steps)
+        # a measurement that failed has no value
+        values = [v for v in self._list_of_measure_values(param, steps) if isinstance(v, (int, float))]
         x = np.array(values, dtype=float)
         mu = x.mean()
         mn = x.min()
-- 
2.43.0


From f83cfb130a731a097546a51dcb4123603a063115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:18 +0000
Subject: [PATCH 137/142] fix: create_raw_file_with() tells that runs failed or
 left no RAW file

---
 spicelib/sim/sim_runner.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 19fcb67..95d2583 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -835,17 +835,19 @@ class SimRunner(AnyRunner):
         :param conditions: A filter as specified on the TaskIterator class
         :return: True if the raw file was created successfully and includes ALL runs, False otherwise
         """
-        
-        retval = True
+        iterator = TaskIterator(self, lambda x: x, True, conditions)
+        tasks: list[RunTask] = list(iterator)
+        # The iterator leaves out the runs that failed
+        retval = not any(task.retcode != 0 and iterator.match_conditions(task) for task in self.completed_tasks)
 
         # Obtain a first task
-        first_task: RunTask = next(self.tasks(conditions))
+        first_task = next((task for task in tasks if task.raw_file and task.raw_file.exists()), None)
 
         # Initialize a raw file based on the contents of the first raw
-        if not first_task.raw_file:
-            _logger.error(f"Raw file {first_task.raw_file} does not exist. Cannot create new raw file.")
+        if first_task is None:
+            _logger.error("There are no raw files on the runs selected. Cannot create new raw file.")
             return False
-            
+
         template = RawRead(first_task.raw_file)
 
         new_raw = RawWrite(
@@ -856,9 +858,9 @@ class SimRunner(AnyRunner):
         )
 
         # Go through the tasks that match the conditions given
-        for run_task in self.tasks(conditions):
+        for run_task in tasks:
             # Open the raw file
-            if not run_task.raw_file:
+            if not run_task.raw_file or not run_task.raw_file.exists():
                 _logger.error(f"Raw file {run_task.raw_file} does not exist. Skipping this task.")
                 retval = False
                 continue
-- 
2.43.0


From f4f7af190d2266e86d07c6c764605e41c68c82d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:36 +0000
Subject: [PATCH 138/142] fix: the backannotations of a RAW file are available

---
 spicelib/raw/plot_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 4f52b12..afa00ff 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -122,7 +122,6 @@ class PlotData(PlotInterface):
         self._fpos_header = raw_file.tell()  # File position of the header section used to skip the data when reading the header.
         self._raw_params: OrderedDict = OrderedDict()  # Dictionary to store the raw parameters
         self._raw_params['Filename'] = raw_filename.as_posix()  # Storing the filename as part of the dictionary
-        # TODO: use backannotations to store the backannotations
         self._backannotations = []  # Storing backannotations
         self._encoding = encoding if encoding else raw_detect_encoding(raw_file, self._fpos_header)  # Encoding of the RAW file, either 'utf_8' or 'utf_16_le'
         self._raw_type = None  # Type of the RAW file, either 'binary' or 'values' but initialized as None to indicate no data is available
@@ -211,6 +210,8 @@ class PlotData(PlotInterface):
                 k, _, v = line.partition(':')
                 if k.lower() == 'variables':
                     break
+                if k.strip().lower() == 'backannotation':  # There is one line per component
+                    self._backannotations.append(v.strip())
                 self._raw_params[k.strip().title()] = v.strip()  # Store the parameter in the dictionary, in title case
         self._nPoints = int(self._raw_params['No. Points'], 10)
         self._nVariables = int(self._raw_params['No. Variables'], 10)
-- 
2.43.0


From 41e5d1930fdf6e39079a0b99b381a2f0bc5430a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:53 +0000
Subject: [PATCH 139/142] fix: the items of a time axis are not negative

---
 spicelib/raw/raw_classes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spicelib/raw/raw_classes.py b/spicelib/raw/raw_classes.py
index c64e9ef..9eab0f7 100644
--- a/spicelib/raw/raw_classes.py
+++ b/spicelib/raw/raw_classes.py
@@ -190,7 +190,8 @@ class Axis(DataSet):
     def __getitem__(self, item) -> float | complex:
         """This is only here for compatibility with previous code. """
         assert self.step_info is None, "Indexing should not be used with stepped data. Use get_point or get_wave"
-        return self.data.__getitem__(item)
+        value = self.data.__getitem__(item)
+        return np.abs(value) if self.name == 'time' else value
 
     def get_position(self, t, step: int = 0) -> int | float:
         """
@@ -239,7 +240,7 @@ class Axis(DataSet):
 
     def __iter__(self):
         assert self.step_info is None, "Iteration can't be used with stepped data. Use get_wave() method."
-        return self.data.__iter__()
+        return iter(self.get_wave())
 
 
 class TraceRead(DataSet):
-- 
2.43.0


From 132468881a4cfe4c7c30bbae1c5dd272a0f86276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:14 +0000
Subject: [PATCH 140/142] fix: the arcs of a symbol are converted to QSPICE
 where they are

---
 spicelib/editor/asy_reader.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/spicelib/editor/asy_reader.py b/spicelib/editor/asy_reader.py
index d2da22b..2993e82 100644
--- a/spicelib/editor/asy_reader.py
+++ b/spicelib/editor/asy_reader.py
@@ -17,6 +17,7 @@
 # -------------------------------------------------------------------------------
 
 import logging
+import math
 from collections import OrderedDict
 from pathlib import Path
 
@@ -227,17 +228,18 @@ class AsyReader:
                 y3 = points[2].Y
                 y4 = points[3].Y
                           
-                center = Point((x1 + x2) // 2, (y1 + y2) // 2)
-                radius = abs(x2 - x1) / 2  # Using only the X axis. Assuming a circle not an ellipse
-                start = Point((x3 - center.X) / radius, (y3 - center.Y) / radius)
-                stop = Point((x4 - center.X) / radius, (y4 - center.Y) / radius)
+                # The start and the end of the arc, and the center, as in QschEditor.copy_from()
+                center_x, center_y = (x1 + x2) / 2, (y1 + y2) / 2
+                radius_x, radius_y = abs(x2 - x1) / 2, abs(y2 - y1) / 2
+                start_angle = math.atan2(y3 - center_y, x3 - center_x)
+                stop_angle = math.atan2(y4 - center_y, x4 - center_x)
                 # overwriting the points with the new ones
-                x1 = int(center.X * SCALE_X)
-                y1 = int(center.Y * SCALE_Y)
-                x2 = int(start.X * SCALE_X)
-                y2 = int(start.Y * SCALE_Y)
-                x3 = int(stop.X * SCALE_X)
-                y3 = int(stop.Y * SCALE_Y)
+                x1 = int((center_x + radius_x * math.cos(start_angle)) * SCALE_X)
+                y1 = int((center_y + radius_y * math.sin(start_angle)) * SCALE_Y)
+                x2 = int((center_x + radius_x * math.cos(stop_angle)) * SCALE_X)
+                y2 = int((center_y + radius_y * math.sin(stop_angle)) * SCALE_Y)
+                x3 = int(center_x * SCALE_X)
+                y3 = int(center_y * SCALE_Y)
                 shape_tag, _ = QschTag.parse(
                     f"«arc3p ({x1},{y1}) ({x2},{y2}) ({x3},{y3}) 0 0 0xff0000 -1 -1»"
                 )
-- 
2.43.0


From cfa475f73d68f2051a6457feca4d6b7236d61cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:07 +0000
Subject: [PATCH 141/142] fix: the lines of a QSPICE component are set and
 removed by number

---
 spicelib/editor/qsch_editor.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 7b63e5a..f8fcc45 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -438,8 +438,14 @@ class QschComponent(SchematicComponent):
 
         return parameters
 
-    def set_parameter(self, key: str, value: float | str):
-        self.set_parameters(**{key: value})
+    def set_parameter(self, key: str | int, value: float | str | None):
+        self._set_parameters({key: value})
+
+    def clear_parameters(self):
+        # docstring inherited from Component
+        for key in self.get_parameters():
+            if isinstance(key, str):  # The numbers are the lines where the parameters are
+                self.set_parameter(key, None)
 
     def set_parameters(self, **kwargs) -> None:
         """
@@ -447,6 +453,9 @@ class QschComponent(SchematicComponent):
         where the parameter was found. If the key is a string, it represents the parameter name. If the parameter name
         already exists, it will be replaced. If not found, it will be added as a new text line.
         """
+        self._set_parameters(kwargs)
+
+    def _set_parameters(self, parameters: dict) -> None:
         parent : QschEditor = self.parent # pyright: ignore[reportAssignmentType]
         permission = parent.begin_update()
         if permission == UpdatePermission.Deny:
@@ -454,21 +463,22 @@ class QschComponent(SchematicComponent):
         symbol = self.symbol_tag
         texts = symbol.get_items('text')
 
-        for key, value in kwargs.items():
+        for key, value in parameters.items():
             if isinstance(value, str) or value is None:
                 value_str = value
             else:
                 value_str = format_eng(value)
             if isinstance(key, int):
-                if key < 2 or key > len(texts):
+                if key < 2 or key > len(texts) or (value is None and key == len(texts)):
                     raise ValueError(f"Invalid line number {key} for component {self.reference}")
-                if key == len(texts):
+                if value is None:
+                    symbol.items.remove(texts[key])
+                elif key == len(texts):
                     x, y = 0, 0  # TODO: Find a way to get the position of the last text
                     tag, _ = QschTag.parse(
-                        f'«text ({x},{y}) 1 7 0 0x1000000 -1 -1 "{value}"»'
+                        f'«text ({x},{y}) 1 7 0 0x1000000 -1 -1 "{value_str}"»'
                     )
-                    symbol.items.append(tag)
-
+                    symbol.items.insert(symbol.items.index(texts[-1]) + 1, tag)
                 else:
                     texts[key].set_attr(QSCH_TEXT_STR_ATTR, value_str)
                 if permission == UpdatePermission.Inform:
-- 
2.43.0


From 1fae81ff74fa6c5bf84c2f931700215aa8fcc2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:45:55 +0000
Subject: [PATCH 142/142] fix: compute QSPICE aliases of nodes and devices
 inside subcircuits

The expressions of aliases were only understood when the names of nodes and
devices had nothing but letters, digits and underscores, and computing failed
when the name of the swept source was a part of the expression.
---
 spicelib/raw/plot_data.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index afa00ff..8e3b88a 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -50,11 +50,13 @@ class TraceInfo:
 
 def namify(spice_ref: str):
     """Translate from V(0,n01) to V__n01__ and I(R1) to I__R1__"""
-    if spice_ref.lower() in ('time', 'frequency'):
+    if spice_ref.isidentifier():  # time, frequency, or whatever is swept
         return spice_ref
-    matchobj = re.match(r'(V|I|P)\((\w+)\)', spice_ref)
+    matchobj = re.fullmatch(r'([VIP])\(([^\s(),]+)\)', spice_ref)
     if matchobj:
-        return f'{matchobj.group(1)}__{matchobj.group(2)}__'
+        # Nodes and devices inside subcircuits have names with characters such as '.', ':' or '•'
+        name = re.sub(r'\W', lambda char: f'_{ord(char.group()):x}_', matchobj.group(2))
+        return f'{matchobj.group(1)}__{name}__'
     else:
         raise NotImplementedError(f'Unrecognized alias type for alias : "{spice_ref}"')
 
@@ -569,13 +571,15 @@ class PlotData(PlotInterface):
         """
         formula = self._aliases[alias]
         # converting V(ref1, ref2) to (V(ref1)-V(ref2))
-        formula = re.sub(r'V\((\w+),0\)', r'V(\1)', formula)
-        formula = re.sub(r'V\(0,(\w+)\)', r'(-V(\1))', formula)
-        formula = re.sub(r'V\((\w+),(\w+)\)', r'(V(\1)-V(\2))', formula)
-        # find all variables used in the formula
-        used_vars = [var.name for var in self._trace_info if var.name in formula]
+        formula = re.sub(r'V\(([^\s(),]+),0\)', r'V(\1)', formula)
+        formula = re.sub(r'V\(0,([^\s(),]+)\)', r'(-V(\1))', formula)
+        formula = re.sub(r'V\(([^\s(),]+),([^\s(),]+)\)', r'(V(\1)-V(\2))', formula)
         # converting V(ref1) to V__ref1__ and I(ref1) to I__ref1__
-        formula = re.sub(r'([VIP])\((\w+)\)', r'\1__\2__', formula)
+        formula = re.sub(r'\b[VIP]\([^\s(),]+\)', lambda ref: namify(ref.group()), formula)
+        # find all variables used in the formula
+        words = re.findall(r'\w+', formula)
+        used_vars = [var.name for var in self._trace_info
+                     if (var.name.isidentifier() or re.fullmatch(r'[VIP]\([^\s(),]+\)', var.name)) and namify(var.name) in words]
 
         # removing the mho or other constants ex:  (0.0001mho*V(0,n01)) -> (0.0001*V(0,n01))
         formula = re.sub(r'(\d+)((mho)|(ohm))', r'\1', formula)
-- 
2.43.0

