From 15b34ff9c4cba337a3c7d0bd82b9c5f80c12b0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 01/21] fix: decide the stream result under a single lock

StreamSender::end checked is_ended() and stored the result in two separate
critical sections, so two concurrent calls could both pass the check and the
second one replaced the result that was already reported.
---
 crates/astro-run/src/stream.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/astro-run/src/stream.rs b/crates/astro-run/src/stream.rs
index 0223139..b212f6a 100644
--- a/crates/astro-run/src/stream.rs
+++ b/crates/astro-run/src/stream.rs
@@ -104,12 +104,13 @@ impl StreamSender {
   }
 
   pub fn end(&self, result: RunResult) {
-    if self.is_ended() {
+    let mut state = self.state.lock();
+
+    if state.result.is_some() {
       log::trace!("StreamSender: already ended");
       return;
     }
 
-    let mut state = self.state.lock();
     state.result = Some(result);
 
     if let Some(waker) = state.waker.take() {
-- 
2.43.0


From 84c661c62d7fe072a25bfc798d0bfa83b621820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 02/21] fix: start every job of a workflow only once

A ready job stayed in the waiting list until its result arrived, so each
other job finishing in the meantime started it again.
---
 crates/astro-run/src/workflow/mod.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/crates/astro-run/src/workflow/mod.rs b/crates/astro-run/src/workflow/mod.rs
index 4e7c511..75ec840 100644
--- a/crates/astro-run/src/workflow/mod.rs
+++ b/crates/astro-run/src/workflow/mod.rs
@@ -96,7 +96,6 @@ impl Workflow {
         workflow_state = WorkflowState::Cancelled;
       }
 
-      waiting_jobs.retain(|(k, _)| k != &key);
       job_results.insert(key, job_result);
 
       if job_results.len() == total_jobs {
@@ -106,21 +105,26 @@ impl Workflow {
         break;
       }
 
-      for (job_id, job) in waiting_jobs.iter() {
-        if !job.depends_on.is_empty() {
-          let mut all_finished = true;
-          for depends_on_key in &job.depends_on {
-            if !job_results.contains_key(depends_on_key) {
-              all_finished = false;
-              break;
-            }
-          }
+      // A job leaves the waiting list as soon as it is started, so that it is started only once
+      let mut pending_jobs: Vec<(Id, Job)> = vec![];
 
-          if all_finished {
-            self.run_job(job_id.clone(), job.clone(), ctx.clone(), sender.clone());
+      for (job_id, job) in waiting_jobs {
+        let mut all_finished = true;
+        for depends_on_key in &job.depends_on {
+          if !job_results.contains_key(depends_on_key) {
+            all_finished = false;
+            break;
           }
         }
+
+        if all_finished {
+          self.run_job(job_id, job, ctx.clone(), sender.clone());
+        } else {
+          pending_jobs.push((job_id, job));
+        }
       }
+
+      waiting_jobs = pending_jobs;
     }
 
     let completed_at = chrono::Utc::now();
-- 
2.43.0


From 1a4930cc61c87182cee07ce9053cc5832b61257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 03/21] fix: reject workflows with circular job dependencies

Only the case in which every job has dependencies was rejected. A cycle next
to an independent job was accepted and the workflow then never completed.
---
 crates/astro-run/src/user_config.rs | 37 ++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/crates/astro-run/src/user_config.rs b/crates/astro-run/src/user_config.rs
index 20e07ff..9653e4b 100644
--- a/crates/astro-run/src/user_config.rs
+++ b/crates/astro-run/src/user_config.rs
@@ -1,6 +1,6 @@
 use crate::{Condition, EnvironmentVariables, Error, Id, Result};
 use serde::{Deserialize, Serialize};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 #[derive(Debug, Clone, Deserialize, Serialize)]
 pub struct ContainerOptions {
@@ -113,6 +113,41 @@ impl UserWorkflow {
       ));
     }
 
+    // Jobs that depend on each other would wait forever: keep marking the jobs whose
+    // dependencies are all marked, until nothing changes
+    let mut runnable_jobs: HashSet<Id> = HashSet::new();
+    let mut is_changed = true;
+
+    while is_changed {
+      is_changed = false;
+
+      for (job_name, job) in &workflow.jobs {
+        let mut is_runnable = !runnable_jobs.contains(job_name);
+
+        if let Some(depends_on) = &job.depends_on {
+          for depend_job_key in depends_on {
+            if !runnable_jobs.contains(depend_job_key) {
+              is_runnable = false;
+            }
+          }
+        }
+
+        if is_runnable {
+          runnable_jobs.insert(job_name.clone());
+          is_changed = true;
+        }
+      }
+    }
+
+    for job_name in workflow.jobs.keys() {
+      if !runnable_jobs.contains(job_name) {
+        return Err(Error::workflow_config_error(format!(
+          "Job {} has circular dependencies",
+          job_name
+        )));
+      }
+    }
+
     Ok(())
   }
 }
-- 
2.43.0


From e8c1ba59030e6afa1a8e99a1875f9193b9441577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 04/21] fix: measure the step timeout over the whole step

The timer was created again on every iteration of the loop, so a step that
kept printing logs never timed out.
---
 crates/astro-run/src/execution_context/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/astro-run/src/execution_context/mod.rs b/crates/astro-run/src/execution_context/mod.rs
index fb4ea6e..a528fbf 100644
--- a/crates/astro-run/src/execution_context/mod.rs
+++ b/crates/astro-run/src/execution_context/mod.rs
@@ -105,10 +105,16 @@ impl ExecutionContext {
 
     self.call_on_state_change(event).await;
 
+    // The timeout covers the whole step, it does not restart when a log is received
+    let timer = time::sleep(timeout);
+    tokio::pin!(timer);
+    let mut is_timed_out = false;
+
     loop {
       tokio::select! {
         // Timeout
-        _ = time::sleep(timeout) => {
+        _ = &mut timer, if !is_timed_out => {
+          is_timed_out = true;
           // Ignore error
           signal.timeout().ok();
         }
-- 
2.43.0


From 034d41ccae0bbb95f9cd60404bfcdb7d26e43d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 05/21] fix: cancel the steps that start after their job was
 cancelled

The job signal is delivered to a single receiver. When the running step
finished in spite of it, the following steps were run as if the job had never
been cancelled.
---
 crates/astro-run/src/execution_context/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/astro-run/src/execution_context/mod.rs b/crates/astro-run/src/execution_context/mod.rs
index a528fbf..700a188 100644
--- a/crates/astro-run/src/execution_context/mod.rs
+++ b/crates/astro-run/src/execution_context/mod.rs
@@ -55,6 +55,11 @@ impl ExecutionContext {
     // Step signal
     let signal = AstroRunSignal::new();
 
+    // The job may have been cancelled during a previous step, and a signal is received only once
+    if job_signal.is_cancelled() {
+      signal.cancel().ok();
+    }
+
     let mut receiver = match self
       .runner
       .run(Context {
-- 
2.43.0


From c14e668e6fdfebb63c52f172a32f7267678da486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 06/21] fix: check the runner capability for the last used
 runner

The last runner of a job was picked for a host/<os>-<arch> step without host
support, and for a docker step without docker support.
---
 crates/scheduler/src/default.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/scheduler/src/default.rs b/crates/scheduler/src/default.rs
index 8ca7251..9326f7b 100644
--- a/crates/scheduler/src/default.rs
+++ b/crates/scheduler/src/default.rs
@@ -62,11 +62,12 @@ impl Scheduler for DefaultScheduler {
         if r.id == last_used_id {
           if is_runs_on_host {
             let container_name = container_name.clone().unwrap();
-            return r.support_host && container_name == format!("host/{}", r.os)
-              || container_name == format!("host/{}-{}", r.os, r.arch);
+            return r.support_host
+              && (container_name == format!("host/{}", r.os)
+                || container_name == format!("host/{}-{}", r.os, r.arch));
           }
 
-          return true;
+          return r.support_docker;
         }
 
         false
-- 
2.43.0


From 5fbbd2c74705965349ecb6344a89a536afae29a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 07/21] fix: notify the scheduler of workflow, job and step
 events

The client never called the scheduler's hooks, so finished steps stayed in the
default scheduler's run counts and finished jobs in its job runners for ever.
---
 crates/remote-runner/src/client.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index b06dee4..1f52c25 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -72,6 +72,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_step_completed(&self, result: astro_run::StepRunResult) -> HookNoopResult {
+    self.scheduler.on_step_completed(result.clone());
+
     let event = ProtocolEvent::StepCompleted(result);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -82,6 +84,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_job_completed(&self, result: astro_run::JobRunResult) -> HookNoopResult {
+    self.scheduler.on_job_completed(result.clone());
+
     let event = ProtocolEvent::JobCompleted(result);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -92,6 +96,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_workflow_completed(&self, result: astro_run::WorkflowRunResult) -> HookNoopResult {
+    self.scheduler.on_workflow_completed(result.clone());
+
     let event = ProtocolEvent::WorkflowCompleted(result);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -112,6 +118,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_run_step(&self, event: astro_run::RunStepEvent) -> HookNoopResult {
+    self.scheduler.on_run_step(event.source.clone());
+
     let event = ProtocolEvent::RunStep(event);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -122,6 +130,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_run_job(&self, event: astro_run::RunJobEvent) -> HookNoopResult {
+    self.scheduler.on_run_job(event.source.clone());
+
     let event = ProtocolEvent::RunJob(event);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -132,6 +142,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_run_workflow(&self, event: astro_run::RunWorkflowEvent) -> HookNoopResult {
+    self.scheduler.on_run_workflow(event.source.clone());
+
     let event = ProtocolEvent::RunWorkflow(event);
 
     if let Err(err) = self.event_sender.send(event) {
-- 
2.43.0


From 8394a9d917d011a776a7154bafb772b9ac82c0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 08/21] fix: keep forwarding events after the client lagged
 behind

RecvError::Lagged ended the forwarding loop, so after one burst of events the
runners never received any event again.
---
 crates/remote-runner/src/client.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index 1f52c25..7fe0551 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -203,7 +203,16 @@ impl AstroRunRemoteRunnerClient {
       }
     }
 
-    while let Ok(event) = receiver.recv().await {
+    loop {
+      let event = match receiver.recv().await {
+        Ok(event) => event,
+        Err(broadcast::error::RecvError::Lagged(count)) => {
+          log::warn!("Too many events, {} events are lost", count);
+          continue;
+        }
+        Err(broadcast::error::RecvError::Closed) => break,
+      };
+
       let clients = self.clients.lock().clone();
       for (_, mut client) in clients {
         if let Err(err) = client.client.send_event(event.clone()).await {
-- 
2.43.0


From 41688311c00e6ef20df00d6816222685b75dc6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 09/21] fix: read both output streams of a command to the end

The loop ended when either stdout or stderr was closed, and the lines still
to be read from the other one were lost.
---
 crates/runner/src/command.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/runner/src/command.rs b/crates/runner/src/command.rs
index bfff992..d7891fd 100644
--- a/crates/runner/src/command.rs
+++ b/crates/runner/src/command.rs
@@ -79,33 +79,36 @@ impl Command {
     let mut lines = out.lines();
     let mut errors = err.lines();
 
-    loop {
+    let mut is_stdout_closed = false;
+    let mut is_stderr_closed = false;
+
+    while !is_stdout_closed || !is_stderr_closed {
       tokio::select! {
-        line = lines.next_line() => {
+        line = lines.next_line(), if !is_stdout_closed => {
           match line {
             Ok(Some(line)) => {
               sender.log(line);
             }
             Ok(None) => {
-                break;
+              is_stdout_closed = true;
             }
             Err(err) => {
               sender.error(err.to_string());
-              break;
+              is_stdout_closed = true;
             }
           }
         }
-        error = errors.next_line() => {
+        error = errors.next_line(), if !is_stderr_closed => {
           match error {
             Ok(Some(error)) => {
               sender.error(error);
             }
             Ok(None) => {
-              break;
+              is_stderr_closed = true;
             }
             Err(err) => {
               sender.error(err.to_string());
-              break;
+              is_stderr_closed = true;
             }
           }
         }
-- 
2.43.0


From 51e032c19138acc536c8ac22ae1a8deff3c2e212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 10/21] fix: finish the executors when the command succeeds

The select only matched a failed run, so after a successful command the
executors waited for a signal that may never come: the after-run plugins were
not called and the step working directory was not removed. The host executor
no longer removes the job data directory, which it now would do between two
steps of a job that share it; it is removed when the workflow completes.
---
 crates/runner/src/executors/docker.rs |  6 ++++--
 crates/runner/src/executors/host.rs   | 10 ++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index 8623861..d2cac10 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -48,8 +48,10 @@ impl Executor for DockerExecutor {
 
       // Run the command
       tokio::select! {
-        Err(err) = command.run(sender.clone()) => {
-          log::error!("Step run error: {}", err);
+        result = command.run(sender.clone()) => {
+          if let Err(err) = result {
+            log::error!("Step run error: {}", err);
+          }
         }
         signal = ctx.signal.recv() => {
           log::trace!("Killing running docker: {}", metadata.docker_name);
diff --git a/crates/runner/src/executors/host.rs b/crates/runner/src/executors/host.rs
index fb1f244..147f0ca 100644
--- a/crates/runner/src/executors/host.rs
+++ b/crates/runner/src/executors/host.rs
@@ -37,8 +37,10 @@ impl Executor for HostExecutor {
 
       tokio::select! {
         // Run the command
-        Err(err) = command.run(sender.clone()) => {
-          log::error!("Step run error: {}", err);
+        result = command.run(sender.clone()) => {
+          if let Err(err) = result {
+            log::error!("Step run error: {}", err);
+          }
         }
         signal = ctx.signal.recv() => {
           // TODO: cancel the command
@@ -51,8 +53,8 @@ impl Executor for HostExecutor {
         }
       }
 
-      // Clean up working directory
-      fs::remove_dir_all(&metadata.job_data_directory).await?;
+      // The job data directory is shared by the steps of the job, it is cleaned up with the
+      // workflow working directory
 
       log::trace!("Step run finished");
     } else {
-- 
2.43.0


From 8eb79bd0244500289994bb79590258b30f881ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 11/21] fix: report a step that was cancelled before it started
 as cancelled

It was reported as failed with exit code 1, and its job as failed.
---
 crates/runner/src/executors/docker.rs | 5 +++++
 crates/runner/src/executors/host.rs   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index d2cac10..6412a3c 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -75,6 +75,11 @@ impl Executor for DockerExecutor {
       log::trace!("Step run finished");
     } else {
       log::trace!("Step is already completed");
+      if ctx.signal.is_cancelled() {
+        sender.cancelled();
+      } else {
+        sender.timeout();
+      }
     }
 
     Ok(())
diff --git a/crates/runner/src/executors/host.rs b/crates/runner/src/executors/host.rs
index 147f0ca..144e42d 100644
--- a/crates/runner/src/executors/host.rs
+++ b/crates/runner/src/executors/host.rs
@@ -59,6 +59,11 @@ impl Executor for HostExecutor {
       log::trace!("Step run finished");
     } else {
       log::trace!("Step run has been completed before it started");
+      if ctx.signal.is_cancelled() {
+        sender.cancelled();
+      } else {
+        sender.timeout();
+      }
     }
 
     Ok(())
-- 
2.43.0


From 12bcdf37c37ecd2ad1232136707dc399eda990a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 12/21] fix: pass environment values to the docker command
 verbatim

A value with a quote broke the command, and $(..) in a value was executed by
the shell of the host.
---
 crates/runner/src/docker.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/runner/src/docker.rs b/crates/runner/src/docker.rs
index 64fc7bd..af8dfba 100644
--- a/crates/runner/src/docker.rs
+++ b/crates/runner/src/docker.rs
@@ -86,7 +86,7 @@ impl Docker {
 
     for (key, value) in &self.environments {
       docker_command.push("-e".to_string());
-      docker_command.push(format!("{}=\"{}\"", key, value));
+      docker_command.push(format!("{}=\"{}\"", key, escape(value)));
     }
 
     if let Some(working_dir) = &self.working_dir {
@@ -110,6 +110,21 @@ impl Docker {
   }
 }
 
+/// Escape the characters that are special inside of double quotes in a shell
+fn escape(value: &str) -> String {
+  let mut escaped = String::new();
+
+  for c in value.chars() {
+    if c == '\\' || c == '"' || c == '$' || c == '`' {
+      escaped.push('\\');
+    }
+
+    escaped.push(c);
+  }
+
+  escaped
+}
+
 impl From<Docker> for Command {
   fn from(docker: Docker) -> Self {
     let command = docker.generate_docker_command();
-- 
2.43.0


From 9e101a60984dc1d92fdaaff526c3278e376333c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 13/21] fix: do not let an invalid pattern hide the matching
 ones

---
 crates/astro-run/src/types/condition.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/astro-run/src/types/condition.rs b/crates/astro-run/src/types/condition.rs
index 2be4f91..bb02fcf 100644
--- a/crates/astro-run/src/types/condition.rs
+++ b/crates/astro-run/src/types/condition.rs
@@ -110,7 +110,6 @@ fn is_match_patterns(values: &Vec<String>, patterns: &Vec<String>) -> bool {
         }
         Err(err) => {
           log::error!("Invalid glob pattern: {}", err);
-          return false;
         }
       }
     }
-- 
2.43.0


From 4971842a4d17898d0dd8f07cea3404ebe5845040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:12 +0000
Subject: [PATCH 14/21] verification hook: condition payload (cfg verif)

---
 crates/astro-run/src/execution_context/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/astro-run/src/execution_context/mod.rs b/crates/astro-run/src/execution_context/mod.rs
index 700a188..2536f9d 100644
--- a/crates/astro-run/src/execution_context/mod.rs
+++ b/crates/astro-run/src/execution_context/mod.rs
@@ -210,6 +210,13 @@ impl ExecutionContext {
     self.signal_manager.cancel_job(job_id)
   }
 
+  /// Verification hook: the payload that conditions are matched against, without asking GitHub
+  #[allow(unexpected_cfgs)]
+  #[cfg(verif)]
+  pub fn verif_condition_payload(&self, payload: crate::ConditionPayload) {
+    *self.condition_matcher.payload.lock() = Some(payload);
+  }
+
   pub(crate) async fn is_match(&self, condition: &Condition) -> bool {
     self.condition_matcher.is_match(condition).await
   }
-- 
2.43.0


From 69dc40640fa4a0a79100eb4260a64a6a73223d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:43 +0000
Subject: [PATCH 15/21] fix: keep the load exact when a step is scheduled again

---
 crates/scheduler/src/default.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/scheduler/src/default.rs b/crates/scheduler/src/default.rs
index 9326f7b..013cc3f 100644
--- a/crates/scheduler/src/default.rs
+++ b/crates/scheduler/src/default.rs
@@ -83,6 +83,15 @@ impl Scheduler for DefaultScheduler {
 
     if let Some(runner) = &runner {
       let mut state = self.state.lock();
+      // A step that is scheduled again is no longer assigned to its previous runner
+      if let Some(previous) = state.step_runners.remove(&ctx.command.id) {
+        let runs_count = state.runs_count.entry(previous.clone()).or_insert(0);
+        *runs_count -= 1;
+
+        if *runs_count <= 0 {
+          state.runs_count.remove(&previous);
+        }
+      }
       state
         .step_runners
         .insert(ctx.command.id.clone(), runner.id.clone());
-- 
2.43.0


From 44d429cff5c0d4890c3650d0b852d83d3ef6aec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 16/21] fix: keep reading the output of a command that is not
 valid UTF-8

---
 crates/runner/src/command.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/crates/runner/src/command.rs b/crates/runner/src/command.rs
index d7891fd..6d45724 100644
--- a/crates/runner/src/command.rs
+++ b/crates/runner/src/command.rs
@@ -76,18 +76,18 @@ impl Command {
     let out = BufReader::new(out);
     let err = BufReader::new(err);
 
-    let mut lines = out.lines();
-    let mut errors = err.lines();
+    let mut lines = out.split(b'\n');
+    let mut errors = err.split(b'\n');
 
     let mut is_stdout_closed = false;
     let mut is_stderr_closed = false;
 
     while !is_stdout_closed || !is_stderr_closed {
       tokio::select! {
-        line = lines.next_line(), if !is_stdout_closed => {
+        line = lines.next_segment(), if !is_stdout_closed => {
           match line {
             Ok(Some(line)) => {
-              sender.log(line);
+              sender.log(decode_line(line));
             }
             Ok(None) => {
               is_stdout_closed = true;
@@ -98,10 +98,10 @@ impl Command {
             }
           }
         }
-        error = errors.next_line(), if !is_stderr_closed => {
+        error = errors.next_segment(), if !is_stderr_closed => {
           match error {
             Ok(Some(error)) => {
-              sender.error(error);
+              sender.error(decode_line(error));
             }
             Ok(None) => {
               is_stderr_closed = true;
@@ -167,6 +167,15 @@ impl Command {
   }
 }
 
+/// A line of the output of a command, which is not necessarily valid UTF-8
+fn decode_line(mut line: Vec<u8>) -> String {
+  if line.last() == Some(&b'\r') {
+    line.pop();
+  }
+
+  String::from_utf8_lossy(&line).into_owned()
+}
+
 #[cfg(test)]
 mod tests {
   use super::*;
-- 
2.43.0


From c220316ee1c491d2a9d73fa3d8b88add805e39cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 17/21] fix: pass every requested volume to docker, also those
 with options

---
 crates/runner/src/executors/docker.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index 6412a3c..81066ab 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -116,10 +116,9 @@ impl DockerExecutor {
     }
 
     if let Some(Some(volumes)) = ctx.command.container.as_ref().map(|c| c.volumes.clone()) {
+      // Such as host:container or host:container:ro
       for volume in volumes {
-        if let [host_path, container_path] = volume.split(':').collect::<Vec<&str>>()[..] {
-          docker = docker.volume(host_path, container_path);
-        }
+        docker.volumes.push(format!("\"{}\"", volume));
       }
     }
 
-- 
2.43.0


From 4fffa8cc4f40bc1bb32ebe40c363e6abdd4011ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 18/21] fix: remove the step directory when its entrypoint
 cannot be written

---
 crates/runner/src/executors/docker.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index 81066ab..f0a2cad 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -44,7 +44,12 @@ impl Executor for DockerExecutor {
     if !is_completed {
       // Create step working directory
       fs::create_dir_all(&metadata.step_host_working_directory).await?;
-      utils::create_executable_file(&metadata.entrypoint_path, &ctx.command.run).await?;
+      if let Err(err) =
+        utils::create_executable_file(&metadata.entrypoint_path, &ctx.command.run).await
+      {
+        fs::remove_dir_all(&metadata.step_host_working_directory).await?;
+        return Err(err);
+      }
 
       // Run the command
       tokio::select! {
-- 
2.43.0


From 27158839e69aa25ce165165a82b636106656f3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 19/21] fix: write the entrypoint completely before it is run

---
 crates/runner/src/utils.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/runner/src/utils.rs b/crates/runner/src/utils.rs
index dd14606..f32a202 100644
--- a/crates/runner/src/utils.rs
+++ b/crates/runner/src/utils.rs
@@ -25,6 +25,8 @@ pub async fn create_executable_file(file_path: &PathBuf, content: &String) -> Re
   }
 
   file.write_all(content.as_bytes()).await?;
+  // The last write is still in progress until the file is flushed
+  file.flush().await?;
 
   // Fix Text file busy
   drop(file);
-- 
2.43.0


From 0cf64286b21e6cda9d69ac04481e4da9989f1e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:28 +0000
Subject: [PATCH 20/21] fix: read all pages of changed files from GitHub

---
 .../execution_context/condition_matcher.rs    | 86 +++++++++++++------
 1 file changed, 61 insertions(+), 25 deletions(-)

diff --git a/crates/astro-run/src/execution_context/condition_matcher.rs b/crates/astro-run/src/execution_context/condition_matcher.rs
index 3249f17..2cbb975 100644
--- a/crates/astro-run/src/execution_context/condition_matcher.rs
+++ b/crates/astro-run/src/execution_context/condition_matcher.rs
@@ -1,8 +1,13 @@
 use crate::{Condition, ConditionPayload, Error, GithubAuthorization, Result, TriggerEvent};
-use octocrate::{APIConfig, AppAuthorization, GitHubAPI, PersonalAccessToken};
+use octocrate::{
+  pulls::list_files, repos::get_commit, APIConfig, AppAuthorization, GitHubAPI, PersonalAccessToken,
+};
 use parking_lot::Mutex;
 use std::sync::Arc;
 
+/// The largest page of files that GitHub returns
+const FILES_PER_PAGE: usize = 100;
+
 #[derive(Clone)]
 pub struct ConditionMatcher {
   pub github_auth: Option<GithubAuthorization>,
@@ -87,19 +92,34 @@ impl ConditionMatcher {
     } = self.event.as_ref().unwrap();
     let github_api = self.get_github_api_by_repo(repo_owner, repo_name).await?;
 
-    let commit = github_api
-      .repos
-      .get_commit(repo_owner, repo_name, sha)
-      .send()
-      .await
-      .map_err(|e| Error::internal_runtime_error(format!("Failed to get commit: {}", e)))?;
+    let mut files: Vec<String> = vec![];
+    let mut page = 1;
+
+    loop {
+      let commit = github_api
+        .repos
+        .get_commit(repo_owner, repo_name, sha)
+        .query(&get_commit::Query {
+          page: Some(page),
+          per_page: Some(FILES_PER_PAGE as i64),
+        })
+        .send()
+        .await
+        .map_err(|e| Error::internal_runtime_error(format!("Failed to get commit: {}", e)))?;
+
+      let page_files = commit.files.unwrap_or(vec![]);
+      let is_last_page = page_files.len() < FILES_PER_PAGE;
+
+      for file in page_files {
+        files.push(file.filename);
+      }
 
-    let files: Vec<String> = commit
-      .files
-      .map(|files| files.iter().map(|f| f.filename.clone()).collect())
-      .unwrap_or(vec![]);
+      if is_last_page {
+        return Ok(files);
+      }
 
-    Ok(files)
+      page += 1;
+    }
   }
 
   async fn get_pull_request_changed_files(&self) -> Result<Vec<String>> {
@@ -110,21 +130,37 @@ impl ConditionMatcher {
       ..
     } = self.event.as_ref().unwrap();
     let github_api = self.get_github_api_by_repo(repo_owner, repo_name).await?;
+    let pr_number = pr_number.ok_or(Error::workflow_config_error("pr_number is not provided"))?;
+
+    let mut files: Vec<String> = vec![];
+    let mut page = 1;
+
+    loop {
+      let page_files = github_api
+        .pulls
+        .list_files(repo_owner, repo_name, pr_number)
+        .query(&list_files::Query {
+          page: Some(page),
+          per_page: Some(FILES_PER_PAGE as i64),
+        })
+        .send()
+        .await
+        .map_err(|e| {
+          Error::internal_runtime_error(format!("Failed to get pull request files: {}", e))
+        })?;
+
+      let is_last_page = page_files.len() < FILES_PER_PAGE;
+
+      for file in page_files {
+        files.push(file.filename);
+      }
 
-    let pull_request_files = github_api
-      .pulls
-      .list_files(
-        repo_owner,
-        repo_name,
-        pr_number.ok_or(Error::workflow_config_error("pr_number is not provided"))?,
-      )
-      .send()
-      .await
-      .map_err(|e| {
-        Error::internal_runtime_error(format!("Failed to get pull request files: {}", e))
-      })?;
+      if is_last_page {
+        return Ok(files);
+      }
 
-    Ok(pull_request_files.into_iter().map(|f| f.filename).collect())
+      page += 1;
+    }
   }
 
   async fn get_github_api_by_repo(
-- 
2.43.0


From 83991949f0df6c7fb64d1834938081e42545bf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:05 +0000
Subject: [PATCH 21/21] fix: forget the event of an earlier run of the same
 workflow

---
 crates/runner/src/astro_runner.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/runner/src/astro_runner.rs b/crates/runner/src/astro_runner.rs
index 749c753..9b802ba 100644
--- a/crates/runner/src/astro_runner.rs
+++ b/crates/runner/src/astro_runner.rs
@@ -44,12 +44,16 @@ impl Runner for AstroRunner {
     let executor = self.create_executor(&ctx);
 
     let event = ctx.event.clone();
+    let workflow_id = ctx.command.id.workflow_id();
     if let Some(event) = &ctx.event {
       self
         .state
         .lock()
         .workflow_events
-        .insert(ctx.command.id.workflow_id(), event.clone());
+        .insert(workflow_id, event.clone());
+    } else {
+      // The event of an earlier run of the workflow does not apply to this one
+      self.state.lock().workflow_events.remove(&workflow_id);
     }
 
     let plugins = Arc::clone(&self.plugin_driver);
-- 
2.43.0

