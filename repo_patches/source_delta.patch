From bdb640e2e96a15f8aae48c0406703dc880e89c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 01/46] fix: do not add the core dump flag to the exit code of
 a signalled run

---
 dsari/daemon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 1f40463..c2330bc 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -44,7 +44,8 @@ __version__ = dsari.__version__
 def wait_deadline(pid, options, deadline, interval=0.05):
     while True:
         (child_pid, child_exit, child_resource) = os.wait4(pid, options)
-        child_signal = child_exit % 256
+        # The 0x80 bit only says whether core was dumped
+        child_signal = child_exit & 0x7F
         if child_signal > 0:
             child_exit = 128 + child_signal
         else:
-- 
2.43.0


From fc8cf8da1cf4f495f8f20cc26babc8cfe0803af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 02/46] fix: return the localized time for a named time zone

---
 dsari/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index d1d9d90..13023fc 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -87,7 +87,7 @@ def dtlocalize(dt, tz=None):
         if isinstance(tz, datetime.tzinfo):
             return dt.astimezone(tz)
         elif not isinstance(dateutil_tz, ImportError):
-            dt.astimezone(dateutil_tz.gettz(tz))
+            return dt.astimezone(dateutil_tz.gettz(tz))
         else:
             return dt.astimezone()
     else:
-- 
2.43.0


From 8340fec4a397bd583e4fa52840325d838f791a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 03/46] fix: survive trigger files which cannot be loaded or
 which disappear

---
 dsari/daemon.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index c2330bc..d0dfe09 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -526,7 +526,14 @@ class Scheduler:
         if self.shutdown:
             return
         for job in self.jobs:
-            self.process_trigger_job(job)
+            try:
+                self.process_trigger_job(job)
+            except Exception as e:
+                # Trigger files are written by others; whatever is wrong with
+                # one of them must not stop the daemon
+                self.logger.error(
+                    "[{}] Cannot load trigger: {}".format(job.name, repr(e))
+                )
 
     def process_trigger_job(self, job):
         trigger_file = None
@@ -542,8 +549,8 @@ class Scheduler:
             break
         if trigger_file is None:
             return
-        t = dtlocalize(epoch_to_dt(os.path.getmtime(trigger_file)))
         try:
+            t = dtlocalize(epoch_to_dt(os.path.getmtime(trigger_file)))
             j = load_structured_file(
                 trigger_file, file_type=trigger_file_type, delete_during=True
             )
@@ -556,9 +563,7 @@ class Scheduler:
             # Return silently, otherwise we spam the log during each loop
             return
         except ValueError as e:
-            self.logger.error(
-                "[{}] Cannot load trigger: {}".format(job.name, e.message)
-            )
+            self.logger.error("[{}] Cannot load trigger: {}".format(job.name, str(e)))
             return
         if type(j) != dict:
             self.logger.error(
-- 
2.43.0


From 5c1c8c153e0fa38e1cb4846a772390ed194761a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 04/46] fix: read a trigger's schedule_time in its
 schedule_timezone

---
 dsari/daemon.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index d0dfe09..9c92939 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -22,6 +22,7 @@ except ImportError:
 
 try:
     import dateutil.parser as dateutil_parser
+    import dateutil.tz as dateutil_tz
 except ImportError as e:
     dateutil_parser = e
 
@@ -581,7 +582,9 @@ class Scheduler:
                 t = epoch_to_dt(float(j["schedule_time"]))
             elif not isinstance(dateutil_parser, ImportError):
                 try:
-                    t = dateutil_parser.parse(j["schedule_time"])
+                    t = dateutil_parser.parse(str(j["schedule_time"]))
+                    if t.tzinfo is None and j.get("schedule_timezone") is not None:
+                        t = t.replace(tzinfo=dateutil_tz.gettz(j["schedule_timezone"]))
                 except ValueError:
                     self.logger.error(
                         '[{}] Invalid schedule_time "{}" for trigger'.format(
-- 
2.43.0


From 9279691dccc49b3a40c7333c4c678c210a087e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 05/46] fix: store YAML trigger and return data which JSON
 cannot represent

---
 dsari/daemon.py | 12 ++++++++----
 dsari/utils.py  |  5 +++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 9c92939..81e6658 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -34,6 +34,7 @@ from dsari.utils import dt_to_epoch, epoch_to_dt
 from dsari.utils import seconds_to_td, td_to_seconds
 from dsari.utils import (
     get_next_schedule_time,
+    json_normalize,
     load_structured_file,
     validate_environment_dict,
     yaml,
@@ -499,7 +500,7 @@ class Scheduler:
         return_data_file_type = None
         for fn, fn_type in [("return_data.json", "json"), ("return_data.yaml", "yaml")]:
             test_file = os.path.join(self.config.data_dir, "runs", job.name, run.id, fn)
-            if not os.path.exists(test_file):
+            if not os.path.isfile(test_file):
                 continue
             if fn_type == "yaml" and isinstance(yaml, ImportError):
                 self.logger.warning(
@@ -511,8 +512,10 @@ class Scheduler:
             break
         if return_data_file is not None:
             try:
-                run.run_data["return_data"] = load_structured_file(
-                    return_data_file, file_type=return_data_file_type
+                run.run_data["return_data"] = json_normalize(
+                    load_structured_file(
+                        return_data_file, file_type=return_data_file_type
+                    )
                 )
             except Exception:
                 pass
@@ -541,7 +544,7 @@ class Scheduler:
         trigger_file_type = None
         for fn, fn_type in [("trigger.json", "json"), ("trigger.yaml", "yaml")]:
             test_file = os.path.join(self.config.data_dir, "trigger", job.name, fn)
-            if not os.path.exists(test_file):
+            if not os.path.isfile(test_file):
                 continue
             if fn_type == "yaml" and isinstance(yaml, ImportError):
                 continue
@@ -566,6 +569,7 @@ class Scheduler:
         except ValueError as e:
             self.logger.error("[{}] Cannot load trigger: {}".format(job.name, str(e)))
             return
+        j = json_normalize(j)
         if type(j) != dict:
             self.logger.error(
                 "[{}] Cannot load trigger: Data must be a dict".format(job.name)
diff --git a/dsari/utils.py b/dsari/utils.py
index 13023fc..7644e57 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -66,6 +66,11 @@ def load_structured_file(file, file_type="json", delete_during=False):
             raise
 
 
+def json_normalize(v):
+    """Reduce loaded data (YAML may be more) to what JSON can represent"""
+    return json.loads(json.dumps(v, default=str))
+
+
 def seconds_to_td(seconds):
     return datetime.timedelta(seconds=seconds)
 
-- 
2.43.0


From c76d43ebd4f38a4a5332c361fdd432925c5aab19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 06/46] fix: act on signals in the main loop instead of
 wherever they arrive

---
 dsari/daemon.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 81e6658..0f370b7 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -43,7 +43,7 @@ from dsari.utils import (
 __version__ = dsari.__version__
 
 
-def wait_deadline(pid, options, deadline, interval=0.05):
+def wait_deadline(pid, options, deadline, interval=0.05, interrupts=()):
     while True:
         (child_pid, child_exit, child_resource) = os.wait4(pid, options)
         # The 0x80 bit only says whether core was dumped
@@ -54,7 +54,7 @@ def wait_deadline(pid, options, deadline, interval=0.05):
             child_exit = child_exit >> 8
         if child_pid != 0:
             return (child_pid, child_exit, child_resource)
-        if dtnow() >= deadline:
+        if interrupts or dtnow() >= deadline:
             return (child_pid, child_exit, child_resource)
         time.sleep(interval)
 
@@ -128,6 +128,7 @@ class Scheduler:
 
         self.wakeups = []
         self.next_wakeup = dtnow() + seconds_to_td(60.0)
+        self.pending_signals = []
 
         self.db = dsari.database.get_database(self.config)
         self.logger.debug("Database in use: {}".format(repr(self.db)))
@@ -189,7 +190,14 @@ class Scheduler:
             run.kill_sent = True
 
     def signal_handler(self, signum, frame):
-        self.next_wakeup = dtnow()
+        # This may have interrupted anything, so only take note of the signal
+        self.pending_signals.append(signum)
+
+    def process_signals(self):
+        while self.pending_signals:
+            self.process_signal(self.pending_signals.pop(0))
+
+    def process_signal(self, signum):
         if signum in (signal.SIGINT, signal.SIGTERM):
             if signum == signal.SIGINT:
                 self.logger.info("SIGINT received, beginning shutdown")
@@ -475,7 +483,7 @@ class Scheduler:
             "Waiting up to {} for running jobs".format(self.next_wakeup - dtnow())
         )
         (child_pid, child_exit, child_resource) = wait_deadline(
-            -1, os.WNOHANG, self.next_wakeup
+            -1, os.WNOHANG, self.next_wakeup, interrupts=self.pending_signals
         )
         if child_pid == 0:
             return child_pid
@@ -750,12 +758,15 @@ class Scheduler:
 
     def loop(self):
         while True:
+            self.process_signals()
             self.wakeups = []
             self.process_triggers()
 
             scheduled_runs = copy.copy(self.scheduled_runs)
             random.shuffle(scheduled_runs)
             for run in scheduled_runs:
+                if self.pending_signals:
+                    break
                 self.process_scheduled_run(run)
 
             for run in self.running_runs:
@@ -778,7 +789,7 @@ class Scheduler:
                 self.logger.debug(
                     "No running jobs, waiting until {}".format(self.next_wakeup)
                 )
-                while True:
+                while not self.pending_signals:
                     now = dtnow()
                     if self.next_wakeup <= now:
                         break
-- 
2.43.0


From 6ac61d83711d7d4d91cdd03cf0e9bdbd6ff86ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 07/46] fix: keep running on the current configuration when a
 reload fails

---
 dsari/daemon.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 0f370b7..231f5e9 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -205,8 +205,16 @@ class Scheduler:
                 self.logger.info("SIGTERM received, beginning shutdown")
             self.begin_shutdown()
         elif signum == signal.SIGHUP:
+            if self.shutdown:
+                return
             self.logger.info("SIGHUP received, reloading")
-            self.load_config()
+            try:
+                self.load_config()
+            except Exception as e:
+                self.logger.error(
+                    "Cannot reload, keeping the current configuration: {}".format(e)
+                )
+                return
             self.reset_jobs()
         elif signum == signal.SIGQUIT:
             self.sigquit_status()
-- 
2.43.0


From 634d862b2a3a71e8a16509369af4ac90cab18b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 08/46] fix: keep counting runs of a concurrency group which is
 removed and added again

---
 dsari/daemon.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 231f5e9..2f98389 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -308,17 +308,16 @@ class Scheduler:
                 # Job disappeared from config during SIGHUP
                 run.respawn = False
             if run.concurrency_group:
-                if run.concurrency_group.name in self.config.concurrency_groups:
-                    concurrency_group = self.config.concurrency_groups[
-                        run.concurrency_group.name
-                    ]
-                    run.concurrency_group = concurrency_group
-                    if concurrency_group not in self.running_groups:
-                        self.running_groups[concurrency_group] = []
-                    self.running_groups[concurrency_group].append(run)
-                else:
-                    # Concurrency group disappeared from config during SIGHUP
-                    run.concurrency_group = None
+                # If the concurrency group disappeared from config during
+                # SIGHUP, remember it, as it could come back while the run is
+                # still in progress
+                concurrency_group = self.config.concurrency_groups.get(
+                    run.concurrency_group.name, run.concurrency_group
+                )
+                run.concurrency_group = concurrency_group
+                if concurrency_group not in self.running_groups:
+                    self.running_groups[concurrency_group] = []
+                self.running_groups[concurrency_group].append(run)
 
     def process_run_execution_time(self, run):
         job = run.job
-- 
2.43.0


From 6a63e56c481a4d73ad09cb4c60737517cf30f266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 09/46] fix: time SIGKILL from the SIGTERM and keep the first
 shutdown time

---
 dsari/daemon.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 2f98389..c17580e 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -148,6 +148,8 @@ class Scheduler:
         self.logger.info("Scheduler running")
 
     def begin_shutdown(self):
+        if self.shutdown:
+            return
         self.shutdown = True
         self.shutdown_begin = dtnow()
         self.scheduled_runs = []
@@ -166,13 +168,14 @@ class Scheduler:
                 )
                 os.kill(run.pid, signal.SIGTERM)
                 run.term_sent = True
+                run.term_time = self.shutdown_begin
         elif len(self.running_runs) > 0:
             self.logger.info("Shutdown will proceed after runs have completed")
 
     def monitor_shutdown(self):
         if not self.config.shutdown_kill_runs:
             return
-        if not self.config.shutdown_kill_grace:
+        if self.config.shutdown_kill_grace is None:
             return
         if dtnow() < (self.shutdown_begin + self.config.shutdown_kill_grace):
             self.wakeups.append(self.shutdown_begin + self.config.shutdown_kill_grace)
@@ -326,8 +329,8 @@ class Scheduler:
         sigterm_grace = job.max_execution_grace
         sigkill_grace = seconds_to_td(5.0)
         now = dtnow()
-        delta = now - run.start_time
-        if delta > (job.max_execution + sigterm_grace):
+        deadline = run.start_time + job.max_execution
+        if run.term_sent and now > max(deadline, run.term_time) + sigterm_grace:
             if not run.kill_sent:
                 self.logger.warning(
                     "[{} {}] SIGTERM grace ({}) exceeded, sending SIGKILL to {}".format(
@@ -337,7 +340,7 @@ class Scheduler:
                 os.kill(run.pid, signal.SIGKILL)
                 run.kill_sent = True
             self.wakeups.append(now + sigkill_grace)
-        elif delta > job.max_execution:
+        elif now > deadline:
             if not run.term_sent:
                 self.logger.warning(
                     "[{} {}] Max execution ({}) exceeded, sending SIGTERM to {}".format(
@@ -346,9 +349,10 @@ class Scheduler:
                 )
                 os.kill(run.pid, signal.SIGTERM)
                 run.term_sent = True
-            self.wakeups.append(now + sigterm_grace)
+                run.term_time = now
+            self.wakeups.append(max(deadline, run.term_time) + sigterm_grace)
         else:
-            self.wakeups.append(run.start_time + job.max_execution)
+            self.wakeups.append(deadline)
 
     def run_child_executor(self, run):
         # Reset all handled signals to default
-- 
2.43.0


From 799892e484e1d56ddbc5dbb8e96897f7c6c342a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 10/46] fix: give jinja2.ChoiceLoader a list, so that
 template_dir works

---
 dsari/render.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index 79727f7..6433649 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -94,8 +94,10 @@ class Renderer:
 
         if self.config.template_dir:
             loader = jinja2.ChoiceLoader(
-                jinja2.FileSystemLoader(self.config.template_dir),
-                jinja2.PackageLoader("dsari"),
+                [
+                    jinja2.FileSystemLoader(self.config.template_dir),
+                    jinja2.PackageLoader("dsari"),
+                ]
             )
         else:
             loader = jinja2.PackageLoader("dsari")
-- 
2.43.0


From c3288a1da5e5164904c59f8a7d429e32727d4b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 11/46] fix: read and render output and trigger texts which are
 not valid Unicode

---
 dsari/render.py |  4 ++--
 dsari/utils.py  | 10 +++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index 6433649..4ad4c44 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -68,10 +68,10 @@ def parse_args():
 def write_html_file(filename, content):
     if filename.endswith(".gz"):
         with gzip.open(filename, "wb") as f:
-            f.write(content.encode("utf-8"))
+            f.write(content.encode("utf-8", errors="replace"))
     else:
         with open(filename, "wb") as f:
-            f.write(content.encode("utf-8"))
+            f.write(content.encode("utf-8", errors="replace"))
 
 
 class Renderer:
diff --git a/dsari/utils.py b/dsari/utils.py
index 7644e57..770917d 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -158,14 +158,18 @@ def json_pretty_print(v):
 def read_output(filename):
     if os.path.isfile(filename):
         with open(filename, "rb") as f:
-            return f.read().decode("utf-8")
+            return f.read().decode("utf-8", errors="replace")
     elif os.path.isfile("{}.gz".format(filename)):
         with gzip.open("{}.gz".format(filename), "rb") as f:
-            return f.read().decode("utf-8")
+            return f.read().decode("utf-8", errors="replace")
     elif (not isinstance(lzma, ImportError)) and os.path.isfile(
         "{}.xz".format(filename)
     ):
         with open("{}.xz".format(filename), "rb") as f:
-            return lzma.LZMADecompressor().decompress(f.read()).decode("utf-8")
+            return (
+                lzma.LZMADecompressor()
+                .decompress(f.read())
+                .decode("utf-8", errors="replace")
+            )
     else:
         return None
-- 
2.43.0


From 4909ad78f97a997e106f396dcc77f1d0c7319111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 12/46] fix: print nothing for a run without output

---
 dsari/info.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsari/info.py b/dsari/info.py
index eeaf0a7..d8e5d9e 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -544,7 +544,9 @@ class Info:
             self.config.data_dir, "runs", run.job.name, run.id, "output.txt"
         )
         with AutoPager() as pager:
-            pager.write(dsari.utils.read_output(fn))
+            output = dsari.utils.read_output(fn)
+            if output is not None:
+                pager.write(output)
 
     def cmd_tail_run_output(self):
         while True:
-- 
2.43.0


From 15cf088a26245dd23362ab7695ae2b42b516ffcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 13/46] fix: let the next rendering complete an interrupted one

---
 dsari/render.py | 52 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index 4ad4c44..aa45636 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -66,12 +66,15 @@ def parse_args():
 
 
 def write_html_file(filename, content):
+    # Never leave a partial file behind, its existence means it is done
+    temp_filename = "{}.tmp".format(filename)
     if filename.endswith(".gz"):
-        with gzip.open(filename, "wb") as f:
+        with gzip.open(temp_filename, "wb") as f:
             f.write(content.encode("utf-8", errors="replace"))
     else:
-        with open(filename, "wb") as f:
+        with open(temp_filename, "wb") as f:
             f.write(content.encode("utf-8", errors="replace"))
+    os.replace(temp_filename, filename)
 
 
 class Renderer:
@@ -131,31 +134,49 @@ class Renderer:
         self.runs = []
         self.jobs_written = []
 
-        self.render_runs()
+        self.collect_runs()
         self.render_jobs()
         self.render_index()
+        # Done last, as a missing run page is what tells the next rendering
+        # that its job's page and the index are not up to date
+        self.render_runs()
 
-    def render_runs(self):
-        self.run_template = self.templates.get_template("run.html")
+    def collect_runs(self):
+        self.runs_unwritten = []
         runs = self.db.get_runs(job_names=[job.name for job in self.jobs])
         for run in runs:
-            self.render_run(run)
+            self.collect_run(run)
 
-    def render_run(self, run):
+    def run_html_filename(self, run):
+        run_html_filename = os.path.join(
+            self.config.data_dir, "html", run.job.name, run.id, "index.html"
+        )
+        if self.config.report_html_gz:
+            run_html_filename = "{}.gz".format(run_html_filename)
+        return run_html_filename
+
+    def collect_run(self, run):
         job = run.job
         self.job_runs[job.name].append(run)
         self.runs.append(run)
         job.last_run = run
         if run.exit_code == 0:
             job.last_successful_run = run
-        run_html_filename = os.path.join(
-            self.config.data_dir, "html", job.name, run.id, "index.html"
-        )
-        if self.config.report_html_gz:
-            run_html_filename = "{}.gz".format(run_html_filename)
-        if os.path.isfile(run_html_filename):
+        if os.path.isfile(self.run_html_filename(run)):
             if not self.args.regenerate:
                 return
+        self.runs_unwritten.append(run)
+        if job not in self.jobs_written:
+            self.jobs_written.append(job)
+
+    def render_runs(self):
+        self.run_template = self.templates.get_template("run.html")
+        for run in self.runs_unwritten:
+            self.render_run(run)
+
+    def render_run(self, run):
+        job = run.job
+        run_html_filename = self.run_html_filename(run)
         if not os.path.exists(
             os.path.join(self.config.data_dir, "html", job.name, run.id)
         ):
@@ -187,8 +208,6 @@ class Renderer:
         self.logger.info("Writing {}".format(run_html_filename))
         context = {"run": run}
         write_html_file(run_html_filename, self.run_template.render(context))
-        if job not in self.jobs_written:
-            self.jobs_written.append(job)
 
     def render_jobs(self):
         self.job_template = self.templates.get_template("job.html")
@@ -222,8 +241,7 @@ class Renderer:
         css_filename = os.path.join(base_dir, "darkly.min.css")
         if not os.path.exists(css_filename):
             css_template = self.templates.get_template("darkly.min.css")
-            with open(css_filename, "wb") as f:
-                f.write(css_template.render({}).encode("utf-8"))
+            write_html_file(css_filename, css_template.render({}))
         self.index_template = self.templates.get_template("index.html")
         if (len(self.jobs_written) > 0) or self.args.regenerate:
             context = {
-- 
2.43.0


From b85400367a9e66d8c9e8efada246c6811482bb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 14/46] fix: keep the offset of H/n within the first n values,
 and allow ranges ending at 0

---
 dsari/croniter_hash.py | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index a4ea118..289841e 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -30,9 +30,9 @@ class croniter_hash(croniter.croniter):
         return super(croniter_hash, self).__init__(expr_format, *args, **kwargs)
 
     def _hash_do(self, id, position, range_end=None, range_begin=None, hash_type="H"):
-        if not range_end:
+        if range_end is None:
             range_end = self.RANGES[position][1]
-        if not range_begin:
+        if range_begin is None:
             range_begin = self.RANGES[position][0]
         if hash_type == "R":
             crc = random.randint(0, 0xFFFFFFFF)
@@ -46,6 +46,20 @@ class croniter_hash(croniter.croniter):
             crc = binascii.crc32(id_bytes) & 0xFFFFFFFF
         return ((crc >> position) % (range_end - range_begin + 1)) + range_begin
 
+    def _hash_step(self, id, position, step, range_end, range_begin, hash_type):
+        # The offset is one of the first step values of the range
+        offset = self._hash_do(
+            id,
+            position,
+            max(range_begin, min(range_end, range_begin + step - 1)),
+            range_begin,
+            hash_type=hash_type,
+        )
+        if step > 0 and offset + step > range_end:
+            # Only one value, and croniter takes x-x/n for the whole range
+            return str(offset)
+        return "{}-{}/{}".format(offset, range_end, step)
+
     def _hash_expand(self, expr_format, id):
         if expr_format == "@midnight":
             expr_format = "H H(0-2) * * * H"
@@ -74,11 +88,13 @@ class croniter_hash(croniter.croniter):
         # Example: H(30-59)/10 -> 34-59/10 (i.e. 34,44,54)
         m = re.match(r"^(H|R)\((\d+)-(\d+)\)\/(\d+)$", item)
         if m:
-            return "{}-{}/{}".format(
-                self._hash_do(id, idx, int(m.group(4)), hash_type=m.group(1))
-                + int(m.group(2)),
-                int(m.group(3)),
+            return self._hash_step(
+                id,
+                idx,
                 int(m.group(4)),
+                int(m.group(3)),
+                int(m.group(2)),
+                m.group(1),
             )
 
         # Example: H(0-29) -> 12
@@ -93,10 +109,13 @@ class croniter_hash(croniter.croniter):
         # Example: H/15 -> 7-59/15 (i.e. 7,22,37,52)
         m = re.match(r"^(H|R)\/(\d+)$", item)
         if m:
-            return "{}-{}/{}".format(
-                self._hash_do(id, idx, int(m.group(2)), hash_type=m.group(1)),
-                self.RANGES[idx][1],
+            return self._hash_step(
+                id,
+                idx,
                 int(m.group(2)),
+                self.RANGES[idx][1],
+                self.RANGES[idx][0],
+                m.group(1),
             )
 
         # Everything else
-- 
2.43.0


From 0a53511afaf172dde7cc5beb15c772b2c5e432e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 15/46] fix: hash @yearly and the like to a day which exists in
 the month

---
 dsari/croniter_hash.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index 289841e..09a8933 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -7,6 +7,7 @@
 # https://github.com/rfinnie/dsari
 
 import binascii
+import calendar
 import random
 import re
 
@@ -75,9 +76,17 @@ class croniter_hash(croniter.croniter):
             expr_format = "H H H H * H"
 
         expr_expanded = []
-        for item in expr_format.split(" "):
+        expr_items = expr_format.split(" ")
+        for item in expr_items:
             idx = len(expr_expanded)
             expr_expanded.append(self._hash_expand_item(item, id, idx))
+
+        # A hashed day of month must exist in the month, e.g. @yearly
+        if expr_items[2:3] in (["H"], ["R"]) and len(expr_items) > 3:
+            if expr_expanded[3] in [str(x) for x in range(1, 13)]:
+                month_days = calendar.monthrange(2001, int(expr_expanded[3]))[1]
+                expr_expanded[2] = str(min(int(expr_expanded[2]), month_days))
+
         return " ".join(expr_expanded)
 
     def _hash_expand_item(self, item, id, idx):
-- 
2.43.0


From d3aa7e86a333fd8b3dbd1eaf8f57d2645ba8d876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 16/46] fix: accept both local and UTC times in the UNTIL of an
 RRULE schedule

---
 dsari/utils.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 770917d..12e0fe0 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -10,6 +10,7 @@ import datetime
 import gzip
 import json
 import os
+import re
 
 try:
     import dateutil.rrule as dateutil_rrule
@@ -123,9 +124,23 @@ def validate_environment_dict(env_in):
     return env_out
 
 
+def rrule_localize_until(schedule, tz):
+    """Turn a local UNTIL into UTC, which a timezone-aware DTSTART requires"""
+
+    def localize(m):
+        until = datetime.datetime.strptime(
+            m.group(1) + (m.group(2) or "T000000"), "%Y%m%dT%H%M%S"
+        ).replace(tzinfo=tz)
+        return until.astimezone(datetime.timezone.utc).strftime("UNTIL=%Y%m%dT%H%M%SZ")
+
+    return re.sub(
+        r"\bUNTIL=([0-9]{8})(T[0-9]{6})?(?=;|$)", localize, schedule.upper()
+    )
+
+
 def get_next_schedule_time(schedule, job_name, start_time=None):
     if start_time is None:
-        start_time = datetime.datetime.now()
+        start_time = dtnow()
     crc = binascii.crc32(job_name.encode("utf-8")) & 0xFFFFFFFF
     subsecond_offset = seconds_to_td(float(crc) / float(0xFFFFFFFF))
     if schedule.upper().startswith("RRULE:"):
@@ -134,7 +149,9 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
         hashed_epoch = start_time - seconds_to_td(
             ((dt_to_epoch(start_time) - crc) % 86400)
         )
-        t = dateutil_rrule.rrulestr(schedule, dtstart=hashed_epoch).after(start_time)
+        t = dateutil_rrule.rrulestr(
+            rrule_localize_until(schedule, start_time.tzinfo), dtstart=hashed_epoch
+        ).after(start_time)
         if t is not None:
             t = t + subsecond_offset
         return t
-- 
2.43.0


From 19568c20ba0e7f815b54a073921414aad102f3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 17/46] fix: load empty YAML files, and report YAML and top
 level errors as configuration errors

---
 dsari/config.py | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/dsari/config.py b/dsari/config.py
index bc56e8b..2575542 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -84,19 +84,33 @@ class ConfigLoader:
             return False
         return True
 
+    def load_file(self, file, file_type):
+        try:
+            config = utils.load_structured_file(file, file_type=file_type)
+        except Exception as e:
+            # What the parsers raise varies
+            raise ConfigError("{}: {}".format(file, e))
+        if config is None and file_type == "yaml":
+            # Empty file
+            return {}
+        self.check_type(file, config, dict)
+        return config
+
+    def check_type(self, level, value, valid_type):
+        if not isinstance(value, valid_type):
+            raise ConfigError(
+                "{}: Invalid value {} (expected {})".format(
+                    level, repr(type(value)), repr(valid_type)
+                )
+            )
+
     def load_dir(self, config_dir=DEFAULT_CONFIG_DIR):
         config = {}
         for fn, fn_type in [("dsari.yaml", "yaml"), ("dsari.json", "json")]:
             if os.path.exists(os.path.join(config_dir, fn)):
-                try:
-                    config = utils.dict_merge(
-                        config,
-                        utils.load_structured_file(
-                            os.path.join(config_dir, fn), file_type=fn_type
-                        ),
-                    )
-                except (ValueError, ImportError) as e:
-                    raise ConfigError(e)
+                config = utils.dict_merge(
+                    config, self.load_file(os.path.join(config_dir, fn), fn_type)
+                )
         self.config.config_d = os.path.join(config_dir, "config.d")
         if "config_d" in config:
             self.config.config_d = config["config_d"]
@@ -113,12 +127,7 @@ class ConfigLoader:
                 ]
                 config_files.sort()
                 for file in config_files:
-                    try:
-                        config = utils.dict_merge(
-                            config, utils.load_structured_file(file, file_type=fn_type)
-                        )
-                    except (ValueError, ImportError) as e:
-                        raise ConfigError(e)
+                    config = utils.dict_merge(config, self.load_file(file, fn_type))
 
         self.load(config)
 
-- 
2.43.0


From 44a94b52a827c04e4c3ab4675d93be0caa6c50d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 18/46] fix: reject configuration values of the wrong type as
 configuration errors

---
 dsari/config.py | 48 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/dsari/config.py b/dsari/config.py
index 2575542..a97d5b3 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -74,13 +74,15 @@ class ConfigLoader:
         self.config = config
 
     def is_valid_name(self, job_name):
+        if not isinstance(job_name, str):
+            return False
         if "/" in job_name:
             return False
         if job_name in (".", ".."):
             return False
         if len(job_name) > 64:
             return False
-        if not re.search("^([- A-Za-z0-9_+.:@]+)$", job_name):
+        if not re.search(r"^([- A-Za-z0-9_+.:@]+)\Z", job_name):
             return False
         return True
 
@@ -113,6 +115,7 @@ class ConfigLoader:
                 )
         self.config.config_d = os.path.join(config_dir, "config.d")
         if "config_d" in config:
+            self.check_type("Config: config_d", config["config_d"], (str, type(None)))
             self.config.config_d = config["config_d"]
         if self.config.config_d and os.path.isdir(self.config.config_d):
             config_d = self.config.config_d
@@ -177,6 +180,8 @@ class ConfigLoader:
         if "concurrency_groups" not in config:
             return
 
+        self.check_type("Concurrency groups", config["concurrency_groups"], dict)
+
         valid_values = {"max": (int,)}
         value_transforms = {}
 
@@ -187,6 +192,11 @@ class ConfigLoader:
                 raise ConfigError(
                     "Concurrency group {}: Invalid name".format(concurrency_group_name)
                 )
+            self.check_type(
+                "Concurrency group {}".format(concurrency_group_name),
+                concurrency_group_dict,
+                dict,
+            )
             concurrency_group = dsari.ConcurrencyGroup(concurrency_group_name)
             self.populate_object(
                 concurrency_group,
@@ -204,16 +214,26 @@ class ConfigLoader:
         job_groups = {}
         if "job_groups" in config:
             job_groups = config["job_groups"]
+        self.check_type("Jobs", jobs, dict)
+        self.check_type("Job groups", job_groups, dict)
 
         for job_group_name, job_group_dict in job_groups.items():
             if not self.is_valid_name(job_group_name):
                 raise ConfigError("Job group {}: Invalid name".format(job_group_name))
+            self.check_type("Job group {}".format(job_group_name), job_group_dict, dict)
             job_template = copy.deepcopy(job_group_dict)
             if "job_names" not in job_template:
                 raise ConfigError(
                     "Job group {}: job_names required".format(job_group_name)
                 )
+            self.check_type(
+                "Job group {}: job_names".format(job_group_name),
+                job_template["job_names"],
+                list,
+            )
             for job_name in job_template["job_names"]:
+                if not self.is_valid_name(job_name):
+                    raise ConfigError("Job {}: Invalid name".format(job_name))
                 jobs[job_name] = copy.deepcopy(job_template)
                 jobs[job_name]["job_group"] = job_group_name
                 del jobs[job_name]["job_names"]
@@ -244,10 +264,19 @@ class ConfigLoader:
 
         if not self.is_valid_name(job_name):
             raise ConfigError("Job {}: Invalid name".format(job_name))
+        self.check_type("Job {}".format(job_name), job_dict, dict)
         if "command" not in job_dict:
             raise ConfigError("Job {}: command required".format(job_name))
         if type(job_dict["command"]) == str:
-            job_dict["command"] = shlex.split(job_dict["command"])
+            try:
+                job_dict["command"] = shlex.split(job_dict["command"])
+            except ValueError as e:
+                raise ConfigError("Job {}: command: {}".format(job_name, e))
+        self.check_type("Job {}: command".format(job_name), job_dict["command"], list)
+        if len(job_dict["command"]) == 0:
+            raise ConfigError("Job {}: command required".format(job_name))
+        for command_arg in job_dict["command"]:
+            self.check_type("Job {}: command".format(job_name), command_arg, str)
         job = dsari.Job(job_name)
         self.populate_object(
             job, "Job {}".format(job_name), job_dict, valid_values, value_transforms
@@ -267,18 +296,21 @@ class ConfigLoader:
     def build_job_concurrency_groups(self, job, job_dict):
         if "concurrency_groups" not in job_dict:
             return
+        self.check_type(
+            "Job {}: concurrency_groups".format(job.name),
+            job_dict["concurrency_groups"],
+            list,
+        )
         for concurrency_group_name in job_dict["concurrency_groups"]:
+            if not self.is_valid_name(concurrency_group_name):
+                raise ConfigError(
+                    "Concurrency group {}: Invalid name".format(concurrency_group_name)
+                )
             if concurrency_group_name in self.config.concurrency_groups:
                 concurrency_group = self.config.concurrency_groups[
                     concurrency_group_name
                 ]
             else:
-                if not self.is_valid_name(concurrency_group_name):
-                    raise ConfigError(
-                        "Concurrency group {}: Invalid name".format(
-                            concurrency_group_name
-                        )
-                    )
                 concurrency_group = dsari.ConcurrencyGroup(concurrency_group_name)
                 self.config.concurrency_groups[
                     concurrency_group.name
-- 
2.43.0


From 6442e08587de605c97fc8f4a7d40377f0d40ad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 19/46] fix: default to sqlite3 when the database option has no
 type

---
 dsari/database.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsari/database.py b/dsari/database.py
index 4773ae9..cdfe5cb 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -13,11 +13,12 @@ from dsari.utils import dt_to_epoch, epoch_to_dt
 
 
 def get_database(config):
-    if config.database["type"] == "postgresql":
+    database_type = config.database.get("type", "sqlite3")
+    if database_type == "postgresql":
         return PostgreSQLDatabase(config)
-    elif config.database["type"] == "mysql":
+    elif database_type == "mysql":
         return MySQLDatabase(config)
-    elif config.database["type"] == "mongodb":
+    elif database_type == "mongodb":
         return MongoDBDatabase(config)
     else:
         return SQLite3Database(config)
-- 
2.43.0


From 7e8f08480a91f24b3054ec7e5a16d2601475c869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 20/46] fix: do not send an empty list to databases which do
 not accept one

---
 dsari/database.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsari/database.py b/dsari/database.py
index cdfe5cb..d8ae081 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -282,6 +282,9 @@ class BaseSQLDatabase(BaseDatabase):
         else:
             where = None
             where_in = []
+        if where is not None and len(where_in) == 0:
+            # Not all databases accept an empty list
+            return []
         if runs_running:
             table_name = "runs_running"
         else:
-- 
2.43.0


From 531746c0acf94518f69fa9f96a149a5ae6339221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 21/46] fix: reject an unknown schedule_timezone instead of
 using local time

---
 dsari/config.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dsari/config.py b/dsari/config.py
index a97d5b3..a142679 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -156,6 +156,12 @@ class ConfigLoader:
                     return
             setattr(obj, k, v)
 
+    def get_timezone(self, name):
+        timezone = utils.dateutil_tz.gettz(name)
+        if timezone is None:
+            raise ValueError("Unknown timezone {}".format(name))
+        return timezone
+
     def build_base(self, config):
         valid_values = {
             "data_dir": (str,),
@@ -256,7 +262,7 @@ class ConfigLoader:
             "concurrent_runs": (bool,),
         }
         value_transforms = {
-            "schedule_timezone": utils.dateutil_tz.gettz,
+            "schedule_timezone": self.get_timezone,
             "max_execution": utils.seconds_to_td,
             "max_execution_grace": utils.seconds_to_td,
             "environment": lambda x: utils.validate_environment_dict(copy.deepcopy(x)),
-- 
2.43.0


From 843f103d23509f9914b94ffbebd249708e472245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 22/46] fix: make config dump loadable, and include
 schedule_timezone in it

---
 dsari/__init__.py | 1 +
 dsari/config.py   | 1 +
 dsari/info.py     | 5 +++++
 3 files changed, 7 insertions(+)

diff --git a/dsari/__init__.py b/dsari/__init__.py
index be07f6a..1d11016 100644
--- a/dsari/__init__.py
+++ b/dsari/__init__.py
@@ -31,6 +31,7 @@ class Job(object):
         self.command = []
         self.schedule = None
         self.schedule_timezone = utils.dtnow().tzinfo
+        self.schedule_timezone_name = None
         self.concurrency_groups = []
         self.max_execution = None
         self.max_execution_grace = utils.seconds_to_td(60.0)
diff --git a/dsari/config.py b/dsari/config.py
index a142679..89c6089 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -287,6 +287,7 @@ class ConfigLoader:
         self.populate_object(
             job, "Job {}".format(job_name), job_dict, valid_values, value_transforms
         )
+        job.schedule_timezone_name = job_dict.get("schedule_timezone")
         if job.schedule is not None:
             try:
                 utils.get_next_schedule_time(job.schedule, job.name)
diff --git a/dsari/info.py b/dsari/info.py
index d8e5d9e..df8d3c9 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -310,6 +310,7 @@ class Info:
                 "command": job.command,
                 "command_append_run": job.command_append_run,
                 "schedule": job.schedule,
+                "schedule_timezone": job.schedule_timezone_name,
                 "next_scheduled_run": (
                     get_next_schedule_time(
                         job.schedule, job.name, start_time=dtnow(job.schedule_timezone)
@@ -365,6 +366,10 @@ class Info:
                 config["concurrency_groups"][concurrency_group.name] = {
                     "max": concurrency_group.max
                 }
+            # Unset options would not be loadable
+            for options in [config, *config["jobs"].values()]:
+                for k in [k for k in options if options[k] is None]:
+                    del options[k]
         with AutoPager() as pager:
             if self.args.format == "yaml":
                 print(yaml.safe_dump(config), file=pager, end="")
-- 
2.43.0


From 0cee4167383df6d358a204030cc88e5d891713e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 23/46] fix: reload the exporter's configuration between
 requests, and only if it is valid

---
 dsari/prometheus_exporter.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/dsari/prometheus_exporter.py b/dsari/prometheus_exporter.py
index 3bc4504..928550e 100644
--- a/dsari/prometheus_exporter.py
+++ b/dsari/prometheus_exporter.py
@@ -377,6 +377,7 @@ class Prometheus:
 class PrometheusHandler:
     def __init__(self, prom):
         self.prom = prom
+        self.reload_requested = False
         self.logger = logging.getLogger()
         self.logger.setLevel(logging.DEBUG)
         lh_console = logging.StreamHandler()
@@ -394,11 +395,23 @@ class PrometheusHandler:
             signal.signal(signum, self.signal_handler)
 
     def signal_handler(self, signum, frame):
+        # This may have interrupted a request, so reload before the next one
         if signum == signal.SIGHUP:
-            self.logger.info("SIGHUP received, reloading")
+            self.reload_requested = True
+
+    def reload(self):
+        self.reload_requested = False
+        self.logger.info("SIGHUP received, reloading")
+        try:
             self.prom.load_config()
+        except Exception as e:
+            self.logger.error(
+                "Cannot reload, keeping the current configuration: {}".format(e)
+            )
 
     def __call__(self, environ, start_response):
+        if self.reload_requested:
+            self.reload()
         self.environ = environ
         self.start_response = start_response
         self.query_params = {}
-- 
2.43.0


From 8ae7ab69286a5b607909724d34e28445a871f368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 24/46] fix: make times read from all databases timezone-aware

---
 dsari/database.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsari/database.py b/dsari/database.py
index d8ae081..048a757 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -5,6 +5,7 @@
 # SPDX-License-Identifier: MPL-2.0
 
 import copy
+import datetime
 import json
 import os
 
@@ -81,7 +82,8 @@ class BaseSQLDatabase(BaseDatabase):
             if type(f[k]) in (int, float):
                 setattr(run, k, epoch_to_dt(f[k]).astimezone())
             else:
-                setattr(run, k, f[k])
+                # Columns without a timezone are in local time
+                setattr(run, k, f[k].astimezone())
         if "exit_code" in f.keys():
             run.exit_code = f["exit_code"]
         run.trigger_type = f["trigger_type"]
@@ -619,6 +621,9 @@ class MongoDBDatabase(BaseDatabase):
         ):
             if k not in f:
                 continue
+            if isinstance(f[k], datetime.datetime) and f[k].tzinfo is None:
+                # MongoDB stores UTC
+                f[k] = f[k].replace(tzinfo=datetime.timezone.utc).astimezone()
             setattr(run, k, f[k])
         return run
 
-- 
2.43.0


From 2bea13894ef4712cad83bda619b7e0ef15fe74c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 25/46] fix: wake up for the next run of a job whose run was
 just started

The next scheduled run was only considered at the next wakeup, up to 60
seconds later while another run was in progress.
---
 dsari/daemon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index c17580e..7c10a0f 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -755,6 +755,7 @@ class Scheduler:
             run.trigger_type = "schedule"
             run.schedule_time = t
             self.scheduled_runs.append(run)
+            self.wakeups.append(t)
             self.logger.debug(
                 "[{} {}] Next scheduled run: {} ({})".format(
                     job.name, run.id, t, (t - now)
-- 
2.43.0


From 9d70ade9ceba6cc2ab82a709d5b283d44e424942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 26/46] fix: keep running when a cron schedule has no further
 occurrence

---
 dsari/config.py |  4 +++-
 dsari/utils.py  | 13 +++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/dsari/config.py b/dsari/config.py
index 89c6089..7b0227a 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -290,7 +290,9 @@ class ConfigLoader:
         job.schedule_timezone_name = job_dict.get("schedule_timezone")
         if job.schedule is not None:
             try:
-                utils.get_next_schedule_time(job.schedule, job.name)
+                t = utils.get_next_schedule_time(job.schedule, job.name)
+                if t is None and not job.schedule.upper().startswith("RRULE:"):
+                    raise ValueError("Schedule has no future occurrence")
             except Exception as e:
                 raise ConfigError(
                     "Job {}: Invalid schedule ({}): {}: {}".format(
diff --git a/dsari/utils.py b/dsari/utils.py
index 12e0fe0..930795d 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -159,13 +159,14 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
         raise ImportError("croniter not available, manual triggers only")
     if len(schedule.split(" ")) == 5:
         schedule = schedule + " H"
-    t = (
-        croniter_hash.croniter_hash(
-            schedule, start_time=start_time, hash_id=job_name
-        ).get_next(datetime.datetime)
-        + subsecond_offset
+    schedule_iter = croniter_hash.croniter_hash(
+        schedule, start_time=start_time, hash_id=job_name
     )
-    return t
+    try:
+        return schedule_iter.get_next(datetime.datetime) + subsecond_offset
+    except croniter_hash.croniter.CroniterBadDateError:
+        # No further occurrence, e.g. the year field has passed
+        return None
 
 
 def json_pretty_print(v):
-- 
2.43.0


From d2d24494f1774afcb5b1a1292b3f28f97b2f9139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 27/46] fix: check trigger data as it was written before
 reducing it to JSON

---
 dsari/daemon.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 7c10a0f..c0a1141 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -588,7 +588,6 @@ class Scheduler:
         except ValueError as e:
             self.logger.error("[{}] Cannot load trigger: {}".format(job.name, str(e)))
             return
-        j = json_normalize(j)
         if type(j) != dict:
             self.logger.error(
                 "[{}] Cannot load trigger: Data must be a dict".format(job.name)
@@ -638,7 +637,7 @@ class Scheduler:
         run = dsari.Run(job)
         run.respawn = False
         run.trigger_type = "file"
-        run.trigger_data = j
+        run.trigger_data = json_normalize(j)
         run.schedule_time = t
 
         if job.concurrent_runs:
-- 
2.43.0


From c3876b63e4fc920fb4deb857655f7c3757d93652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:54 +0000
Subject: [PATCH 28/46] fix: keep cron schedules in the future when the clocks
 go back

---
 dsari/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 930795d..e149cce 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -104,6 +104,11 @@ def dtnow(tz=None):
     return dtlocalize(datetime.datetime.now(), tz)
 
 
+def dt_add(dt, td):
+    """Add elapsed time, where a plain addition is of wall clock time"""
+    return (dt.astimezone(datetime.timezone.utc) + td).astimezone(dt.tzinfo)
+
+
 def validate_environment_dict(env_in):
     env_out = {}
     for k in env_in:
@@ -163,7 +168,7 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
         schedule, start_time=start_time, hash_id=job_name
     )
     try:
-        return schedule_iter.get_next(datetime.datetime) + subsecond_offset
+        return dt_add(schedule_iter.get_next(datetime.datetime), subsecond_offset)
     except croniter_hash.croniter.CroniterBadDateError:
         # No further occurrence, e.g. the year field has passed
         return None
-- 
2.43.0


From d542760c9a176e060f034a0412c23a7f9baa03bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 29/46] fix: keep RRULE schedules in the future when the clocks
 go back

---
 dsari/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index e149cce..0873899 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -158,7 +158,10 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
             rrule_localize_until(schedule, start_time.tzinfo), dtstart=hashed_epoch
         ).after(start_time)
         if t is not None:
-            t = t + subsecond_offset
+            if dt_to_epoch(t) <= dt_to_epoch(start_time):
+                # Clocks went back in between, so the second of two such times
+                t = t.replace(fold=1)
+            t = dt_add(t, subsecond_offset)
         return t
     if isinstance(croniter_hash, ImportError):
         raise ImportError("croniter not available, manual triggers only")
-- 
2.43.0


From ed6118bc287f77234c5523904701677e88bdcfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:22 +0000
Subject: [PATCH 30/46] fix: order wakeups as points in time, also when the
 clocks go back

---
 dsari/daemon.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index c0a1141..9b67902 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -764,7 +764,9 @@ class Scheduler:
     def process_wakeups(self):
         self.next_wakeup = dtnow() + seconds_to_td(60.0)
         for wakeup in self.wakeups:
-            if wakeup < self.next_wakeup:
+            # Wall clock times of the same timezone would not compare as
+            # points in time when the clocks go back
+            if dt_to_epoch(wakeup) < dt_to_epoch(self.next_wakeup):
                 self.next_wakeup = wakeup
 
     def loop(self):
-- 
2.43.0


From 14e82a16de81f8a9864a07ce87fbca7bf90c7e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 31/46] fix: reject H and R ranges that are not ranges of their
 field

---
 dsari/croniter_hash.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index 09a8933..e6c9925 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -35,6 +35,14 @@ class croniter_hash(croniter.croniter):
             range_end = self.RANGES[position][1]
         if range_begin is None:
             range_begin = self.RANGES[position][0]
+        # Sunday is also 7, depending on the croniter version
+        range_max = 7 if position == 4 else self.RANGES[position][1]
+        if not (self.RANGES[position][0] <= range_begin <= range_end <= range_max):
+            raise croniter.CroniterBadCronError(
+                "[{}-{}] is not a range of field {}".format(
+                    range_begin, range_end, position + 1
+                )
+            )
         if hash_type == "R":
             crc = random.randint(0, 0xFFFFFFFF)
         else:
-- 
2.43.0


From 93fa6cc8e238f934e506b7a0398dce3ad00108fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 32/46] fix: accept 7 as Sunday in cron schedules

---
 dsari/croniter_hash.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index e6c9925..2ff1b10 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -95,8 +95,22 @@ class croniter_hash(croniter.croniter):
                 month_days = calendar.monthrange(2001, int(expr_expanded[3]))[1]
                 expr_expanded[2] = str(min(int(expr_expanded[2]), month_days))
 
+        # Sunday is also 7, which croniter only accepts without seconds
+        if len(expr_expanded) > 5:
+            expr_expanded[4] = ",".join(
+                self._expand_sunday(x) for x in expr_expanded[4].split(",")
+            )
+
         return " ".join(expr_expanded)
 
+    def _expand_sunday(self, item):
+        # Example: 7 -> 0, 5-7 -> 5,6,0
+        m = re.match(r"^(?:([0-7])-)?7(?:\/([1-9]\d*))?$", item)
+        if not m or (m.group(2) and not m.group(1)):
+            return item
+        days = range(int(m.group(1) or 7), 8, int(m.group(2) or 1))
+        return ",".join(sorted({str(day % 7) for day in days}))
+
     def _hash_expand_item(self, item, id, idx):
         # Example: H -> 32
         if item in ("H", "R"):
-- 
2.43.0


From a7ba3d0479c2e729f7b1b826fcd008be96a7df73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 33/46] fix: reject RRULE intervals below 1 instead of hanging

---
 dsari/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsari/utils.py b/dsari/utils.py
index 0873899..9b18489 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -151,6 +151,9 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
     if schedule.upper().startswith("RRULE:"):
         if isinstance(dateutil_rrule, ImportError):
             raise ImportError("dateutil not available, manual triggers only")
+        if re.search(r"\bINTERVAL=(?!0*[1-9][0-9]*(;|$))", schedule.upper()):
+            # dateutil would look for the next occurrence forever
+            raise ValueError("Invalid INTERVAL")
         hashed_epoch = start_time - seconds_to_td(
             ((dt_to_epoch(start_time) - crc) % 86400)
         )
-- 
2.43.0


From 544fcb6a945581fa5ebb4223f71838490032f0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 34/46] fix: accept a database file without a directory

---
 dsari/database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/database.py b/dsari/database.py
index 048a757..28f9744 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -495,7 +495,7 @@ class SQLite3Database(BaseSQLDatabase):
         if config.database["file"] is None:
             config.database["file"] = os.path.join(config.data_dir, "dsari.sqlite3")
         db_dir = os.path.dirname(config.database["file"])
-        if not os.path.exists(db_dir):
+        if db_dir and not os.path.exists(db_dir):
             os.makedirs(db_dir)
         self.config = config
         self.db_conn = sqlite3.connect(config.database["file"])
-- 
2.43.0


From 4ebb9907f3b9de65979e384bd46d14fb1f71b704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 35/46] fix: dump a disabled config_d

---
 dsari/info.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsari/info.py b/dsari/info.py
index df8d3c9..406e4bb 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -366,10 +366,11 @@ class Info:
                 config["concurrency_groups"][concurrency_group.name] = {
                     "max": concurrency_group.max
                 }
-            # Unset options would not be loadable
+            # Unset options would not be loadable, except a disabled config_d
             for options in [config, *config["jobs"].values()]:
                 for k in [k for k in options if options[k] is None]:
-                    del options[k]
+                    if k != "config_d":
+                        del options[k]
         with AutoPager() as pager:
             if self.args.format == "yaml":
                 print(yaml.safe_dump(config), file=pager, end="")
-- 
2.43.0


From d2d802e77c80d07dc8e7f8414910e542fa7ac1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:11 +0000
Subject: [PATCH 36/46] fix: store times as UTC in PostgreSQL and MySQL, as
 documented

---
 dsari/database.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dsari/database.py b/dsari/database.py
index 28f9744..2571455 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -68,7 +68,10 @@ class BaseSQLDatabase(BaseDatabase):
     def _build_insert(self, pairs):
         out = []
         for (k, v) in pairs:
-            if k in ("trigger_data", "run_data"):
+            if k in ("schedule_time", "start_time", "stop_time"):
+                # Columns without a timezone are in UTC
+                out.append(v.astimezone(datetime.timezone.utc).replace(tzinfo=None))
+            elif k in ("trigger_data", "run_data"):
                 out.append(json.dumps(v))
             else:
                 out.append(v)
@@ -82,8 +85,9 @@ class BaseSQLDatabase(BaseDatabase):
             if type(f[k]) in (int, float):
                 setattr(run, k, epoch_to_dt(f[k]).astimezone())
             else:
-                # Columns without a timezone are in local time
-                setattr(run, k, f[k].astimezone())
+                # Columns without a timezone are in UTC
+                utc_time = f[k].replace(tzinfo=datetime.timezone.utc)
+                setattr(run, k, utc_time.astimezone())
         if "exit_code" in f.keys():
             run.exit_code = f["exit_code"]
         run.trigger_type = f["trigger_type"]
-- 
2.43.0


From b95300731bfd518b57b51c6b46ec9331f3900468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:11 +0000
Subject: [PATCH 37/46] fix: end the transaction after reading, to see later
 changes

---
 dsari/database.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dsari/database.py b/dsari/database.py
index 2571455..35e0e1e 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -62,6 +62,10 @@ class BaseSQLDatabase(BaseDatabase):
     def populate_schema(self):
         pass
 
+    def _end_read(self):
+        # Some databases would otherwise keep showing the same snapshot
+        self.db_conn.commit()
+
     def _modify_statement(self, sql):
         return sql.format(*((self.placeholder,) * sql.count("{}")))
 
@@ -184,6 +188,7 @@ class BaseSQLDatabase(BaseDatabase):
         else:
             previous_bad_run = None
 
+        self._end_read()
         return (previous_run, previous_good_run, previous_bad_run)
 
     def insert_running_run(self, run):
@@ -328,6 +333,7 @@ class BaseSQLDatabase(BaseDatabase):
                 fake_jobs[db_result["job_name"]] = job
             runs.append(self._build_run_from_result(job, db_result))
         cur.close()
+        self._end_read()
         return runs
 
 
-- 
2.43.0


From 0212f67ff67750d7daf84f4d659cb979e4203c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:11 +0000
Subject: [PATCH 38/46] fix: accept run IDs which are not UUIDs when filtering
 on PostgreSQL

---
 dsari/database.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/dsari/database.py b/dsari/database.py
index 35e0e1e..6da6435 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -8,6 +8,7 @@ import copy
 import datetime
 import json
 import os
+import uuid
 
 import dsari
 from dsari.utils import dt_to_epoch, epoch_to_dt
@@ -337,6 +338,13 @@ class BaseSQLDatabase(BaseDatabase):
         return runs
 
 
+def is_uuid(v):
+    try:
+        return str(uuid.UUID(v)) == v
+    except ValueError:
+        return False
+
+
 class PostgreSQLDatabase(BaseSQLDatabase):
     def __init__(self, config):
         import psycopg2
@@ -415,6 +423,15 @@ class PostgreSQLDatabase(BaseSQLDatabase):
             self.db_conn.commit()
 
 
+    def get_runs(self, job_names=None, run_ids=None, runs_running=False):
+        if run_ids is not None:
+            # Anything else is an error to PostgreSQL
+            run_ids = [run_id for run_id in run_ids if is_uuid(run_id)]
+        return super().get_runs(
+            job_names=job_names, run_ids=run_ids, runs_running=runs_running
+        )
+
+
 class MySQLDatabase(BaseSQLDatabase):
     def __init__(self, config):
         import MySQLdb
-- 
2.43.0


From 7868859f4f80f1b5b94ca6411c7643a4db8b82fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:11 +0000
Subject: [PATCH 39/46] fix: tell apart job names differing in case on MySQL

---
 dsari/database.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsari/database.py b/dsari/database.py
index 6da6435..0ba144b 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -422,7 +422,6 @@ class PostgreSQLDatabase(BaseSQLDatabase):
             cur.close()
             self.db_conn.commit()
 
-
     def get_runs(self, job_names=None, run_ids=None, runs_running=False):
         if run_ids is not None:
             # Anything else is an error to PostgreSQL
@@ -462,7 +461,8 @@ class MySQLDatabase(BaseSQLDatabase):
         if not runs_exists:
             sql_statement = """
                 CREATE TABLE runs (
-                    job_name varchar(255) NOT NULL,
+                    job_name varchar(255) CHARACTER SET utf8mb4
+                        COLLATE utf8mb4_bin NOT NULL,
                     run_id char(36) PRIMARY KEY,
                     schedule_time datetime(6) NOT NULL,
                     start_time datetime(6) NOT NULL,
@@ -496,7 +496,8 @@ class MySQLDatabase(BaseSQLDatabase):
         if not runs_running_exists:
             sql_statement = """
                 CREATE TABLE runs_running (
-                    job_name varchar(255) NOT NULL,
+                    job_name varchar(255) CHARACTER SET utf8mb4
+                        COLLATE utf8mb4_bin NOT NULL,
                     run_id char(36) PRIMARY KEY,
                     schedule_time datetime(6) NOT NULL,
                     start_time datetime(6) NOT NULL,
-- 
2.43.0


From f4f1aa956b9faed784088357e67b76ee2a004086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:11 +0000
Subject: [PATCH 40/46] fix: do not miss runs which complete while being listed

---
 dsari/info.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dsari/info.py b/dsari/info.py
index 406e4bb..1002ce4 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -426,9 +426,15 @@ class Info:
     def cmd_list_runs(self):
         job_names = self.args.job
         run_ids = self.args.run
+        # Running runs first, as a run may complete in between
+        runs_running = self.db.get_runs(
+            job_names=job_names, run_ids=run_ids, runs_running=True
+        )
         runs = self.db.get_runs(
             job_names=job_names, run_ids=run_ids, runs_running=False
-        ) + self.db.get_runs(job_names=job_names, run_ids=run_ids, runs_running=True)
+        )
+        completed = {run.id for run in runs}
+        runs += [run for run in runs_running if run.id not in completed]
         if self.args.format in ("json", "yaml"):
             out = {}
             for run in runs:
@@ -540,9 +546,9 @@ class Info:
 
     def cmd_get_run_output(self):
         run_id = self.args.run
-        runs = self.db.get_runs(run_ids=[run_id])
+        runs = self.db.get_runs(run_ids=[run_id], runs_running=True)
         if len(runs) == 0:
-            runs = self.db.get_runs(run_ids=[run_id], runs_running=True)
+            runs = self.db.get_runs(run_ids=[run_id])
             if len(runs) == 0:
                 self.args.parser.error("Cannot find run ID {}".format(run_id))
         run = runs[0]
-- 
2.43.0


From 6ca7ece1f3044dce633f5c5aca7300416622b387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:08 +0000
Subject: [PATCH 41/46] fix: read output which is compressed meanwhile

---
 dsari/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 9b18489..95b5ce0 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -186,9 +186,13 @@ def json_pretty_print(v):
 
 def read_output(filename):
     if os.path.isfile(filename):
-        with open(filename, "rb") as f:
-            return f.read().decode("utf-8", errors="replace")
-    elif os.path.isfile("{}.gz".format(filename)):
+        try:
+            with open(filename, "rb") as f:
+                return f.read().decode("utf-8", errors="replace")
+        except FileNotFoundError:
+            # Compressed meanwhile
+            pass
+    if os.path.isfile("{}.gz".format(filename)):
         with gzip.open("{}.gz".format(filename), "rb") as f:
             return f.read().decode("utf-8", errors="replace")
     elif (not isinstance(lzma, ImportError)) and os.path.isfile(
-- 
2.43.0


From d9ce0a19d92f945bb63a30bbdfaff859c7e4b28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:11 +0000
Subject: [PATCH 42/46] fix: show the last run of a job in the index, whatever
 order runs are read in

---
 dsari/render.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsari/render.py b/dsari/render.py
index aa45636..f344c87 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -144,7 +144,8 @@ class Renderer:
     def collect_runs(self):
         self.runs_unwritten = []
         runs = self.db.get_runs(job_names=[job.name for job in self.jobs])
-        for run in runs:
+        # Not all databases return runs in the order they were recorded
+        for run in sorted(runs, key=lambda run: run.stop_time):
             self.collect_run(run)
 
     def run_html_filename(self, run):
-- 
2.43.0


From b0636437b475161d093c1c8e35441bedfc393816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:14 +0000
Subject: [PATCH 43/46] fix: link to reports of jobs which have a colon in
 their name

---
 dsari/templates/index.html | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsari/templates/index.html b/dsari/templates/index.html
index 214902a..c8a81ed 100644
--- a/dsari/templates/index.html
+++ b/dsari/templates/index.html
@@ -21,7 +21,7 @@
 </tr>
 {% for run in failed_runs %}
 <tr{% if run.exit_code != 0 %} class="danger"{% endif %}>
-    <td><a href="{{ run.job.name }}/{{ run.id }}/">{{ strip_ms(run.stop_time) }}</a></td>
+    <td><a href="./{{ run.job.name }}/{{ run.id }}/">{{ strip_ms(run.stop_time) }}</a></td>
     <td>{{ run.job.name }}</td>
     <td>{{ strip_ms(run.stop_time - run.start_time) }}</td>
     <td>{{ run.exit_code }}</td>
@@ -38,7 +38,7 @@
 </tr>
 {% for run in runs %}
 <tr{% if run.exit_code != 0 %} class="danger"{% endif %}>
-    <td><a href="{{ run.job.name }}/{{ run.id }}/">{{ strip_ms(run.stop_time) }}</a></td>
+    <td><a href="./{{ run.job.name }}/{{ run.id }}/">{{ strip_ms(run.stop_time) }}</a></td>
     <td>{{ run.job.name }}</td>
     <td>{{ strip_ms(run.stop_time - run.start_time) }}</td>
     <td>{{ run.exit_code }}</td>
@@ -55,7 +55,7 @@
 </tr>
 {% for job in jobs %}
 <tr{% if job.last_run.start_time != job.last_successful_run.start_time %} class="danger"{% endif %}>
-    <td><a href="{{ job.name }}/">{{ job.name }}</a></td>
+    <td><a href="./{{ job.name }}/">{{ job.name }}</a></td>
     <td>{{ strip_ms(job.last_run.start_time) }}</td>
     <td>{% if job.last_run.start_time %}{{ strip_ms(job.last_run.stop_time - job.last_run.start_time) }}{% endif %}</td>
     <td>{{ strip_ms(job.last_successful_run.start_time) }}</td>
-- 
2.43.0


From b7fec40f773e41f91069bb0bc09398d791ea8d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 44/46] fix: do not open the default database when not used as
 a WSGI application

---
 dsari/prometheus_exporter.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/dsari/prometheus_exporter.py b/dsari/prometheus_exporter.py
index 928550e..7329055 100644
--- a/dsari/prometheus_exporter.py
+++ b/dsari/prometheus_exporter.py
@@ -118,9 +118,16 @@ def entry(values, type="gauge", help=None):
 
 
 class Prometheus:
-    def __init__(self, args):
+    def __init__(self, args, lazy=False):
         self.args = args
-        self.load_config()
+        self.config = None
+        self.db = None
+        if not lazy:
+            self.open()
+
+    def open(self):
+        if self.config is None:
+            self.load_config()
         self.db = dsari.database.get_database(self.config)
 
     def load_config(self):
@@ -345,6 +352,9 @@ class Prometheus:
         exporter_start = dtnow()
         metrics = {}
 
+        if self.db is None:
+            self.open()
+
         if (self.job_cache is None) or (
             (self.job_cache_time + seconds_to_td(self.args.job_cache_time)) < dtnow()
         ):
@@ -463,4 +473,5 @@ else:
     else:
         wsgi_args = []
     args = parse_args(wsgi_args)
-    wsgi_application = PrometheusHandler(prom=Prometheus(args))
+    # Opened with the first request, as main() also gets here by its import
+    wsgi_application = PrometheusHandler(prom=Prometheus(args, lazy=True))
-- 
2.43.0


From a1d3f5023f51cf706e53b42b0fff1f373ff1cedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:10 +0000
Subject: [PATCH 45/46] fix: reject ranges that are not of their field in
 H(a-b)/n and R(a-b)/n too

---
 dsari/croniter_hash.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index 2ff1b10..ec1e12b 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -35,14 +35,7 @@ class croniter_hash(croniter.croniter):
             range_end = self.RANGES[position][1]
         if range_begin is None:
             range_begin = self.RANGES[position][0]
-        # Sunday is also 7, depending on the croniter version
-        range_max = 7 if position == 4 else self.RANGES[position][1]
-        if not (self.RANGES[position][0] <= range_begin <= range_end <= range_max):
-            raise croniter.CroniterBadCronError(
-                "[{}-{}] is not a range of field {}".format(
-                    range_begin, range_end, position + 1
-                )
-            )
+        self._check_range(position, range_begin, range_end)
         if hash_type == "R":
             crc = random.randint(0, 0xFFFFFFFF)
         else:
@@ -55,7 +48,18 @@ class croniter_hash(croniter.croniter):
             crc = binascii.crc32(id_bytes) & 0xFFFFFFFF
         return ((crc >> position) % (range_end - range_begin + 1)) + range_begin
 
+    def _check_range(self, position, range_begin, range_end):
+        # Sunday is also 7, depending on the croniter version
+        range_max = 7 if position == 4 else self.RANGES[position][1]
+        if not (self.RANGES[position][0] <= range_begin <= range_end <= range_max):
+            raise croniter.CroniterBadCronError(
+                "[{}-{}] is not a range of field {}".format(
+                    range_begin, range_end, position + 1
+                )
+            )
+
     def _hash_step(self, id, position, step, range_end, range_begin, hash_type):
+        self._check_range(position, range_begin, range_end)
         # The offset is one of the first step values of the range
         offset = self._hash_do(
             id,
-- 
2.43.0


From 43f1a83f9375de80c901554a5ab4e8f14872105e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:07 +0000
Subject: [PATCH 46/46] fix: programs creating the SQLite database at the same
 time no longer fail

One program could create the directory or a table between the other's look
and its creation; the other then ended with FileExistsError or
OperationalError (table already exists).
---
 dsari/database.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsari/database.py b/dsari/database.py
index 0ba144b..8b32729 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -523,8 +523,8 @@ class SQLite3Database(BaseSQLDatabase):
         if config.database["file"] is None:
             config.database["file"] = os.path.join(config.data_dir, "dsari.sqlite3")
         db_dir = os.path.dirname(config.database["file"])
-        if db_dir and not os.path.exists(db_dir):
-            os.makedirs(db_dir)
+        if db_dir:
+            os.makedirs(db_dir, exist_ok=True)
         self.config = config
         self.db_conn = sqlite3.connect(config.database["file"])
         self.db_conn.row_factory = sqlite3.Row
@@ -548,7 +548,7 @@ class SQLite3Database(BaseSQLDatabase):
 
         if not runs_exists:
             sql_statement = """
-                CREATE TABLE runs (
+                CREATE TABLE IF NOT EXISTS runs (
                     job_name text,
                     run_id text,
                     schedule_time real,
@@ -582,7 +582,7 @@ class SQLite3Database(BaseSQLDatabase):
 
         if not runs_running_exists:
             sql_statement = """
-                CREATE TABLE runs_running (
+                CREATE TABLE IF NOT EXISTS runs_running (
                     job_name text,
                     run_id text,
                     schedule_time real,
-- 
2.43.0

