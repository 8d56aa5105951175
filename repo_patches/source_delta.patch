From b480a5c8ad0c5ab831ec532526a36a73059d24b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:43 +0000
Subject: [PATCH 01/16] fix: do not print the list of existing drains on stdout
 while preparing a pipeline

---
 src/config_manip.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/config_manip.rs b/src/config_manip.rs
index fcce13a..f19835a 100644
--- a/src/config_manip.rs
+++ b/src/config_manip.rs
@@ -651,7 +651,6 @@ fn add_launch_exit_spies(config: &mut Config, to_add: Vec<String>) {
 
     let mut existing_connection_keys = config.connection.keys().map(|x| x.clone()).collect();
     let mut existing_drains = config.drain.keys().map(|x| x.clone()).collect();
-    println!("{:?}", existing_drains);
 
     for launch_name in to_add {
         let new_drain_key = generate_new_key("dyn_drain", &existing_drains);
-- 
2.43.0


From bd1b25547bf35577f1ae66c6ff543c72a04b70d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:43 +0000
Subject: [PATCH 02/16] fix: a junction which stops because of an error must
 release its outputs

---
 src/junction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/junction.rs b/src/junction.rs
index 6ffd1ed..6ed76d0 100644
--- a/src/junction.rs
+++ b/src/junction.rs
@@ -176,6 +176,7 @@ impl StartableControl for Junction {
                 Ok((false, n)) => { read_count += n }
                 Err(e) => {
                     self.stdin.clear();
+                    self.stdout.clear();
                     return MotionResult::Err(e);
                 }
             }
-- 
2.43.0


From 37dbd2902928e023d5c4bd0422dd6ae36b927f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:43 +0000
Subject: [PATCH 03/16] fix: junction inputs which have the same priority
 belong to the same priority group

---
 src/junction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/junction.rs b/src/junction.rs
index 6ed76d0..5e83d92 100644
--- a/src/junction.rs
+++ b/src/junction.rs
@@ -88,6 +88,7 @@ impl Junction {
                 self.stdin.push(vec![])
             }
             if priority > old_priority {
+                old_priority = priority;
                 self.stdin.push(vec![])
             }
             if let Some(v) = self.stdin.last_mut() {
-- 
2.43.0


From 039c7514b3ee877426b7572b54f15ce1cf270c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:43 +0000
Subject: [PATCH 04/16] fix: report a join string which cannot be understood
 instead of panicking

---
 src/bin/pa2.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/bin/pa2.rs b/src/bin/pa2.rs
index 33ce179..4ccc35d 100644
--- a/src/bin/pa2.rs
+++ b/src/bin/pa2.rs
@@ -510,11 +510,20 @@ fn process_user_config_action(result_config: Result<UserRequest, String>) -> Res
             return Err(format!("We found the following warnings / errors: \n\n * {}\n", errs.join("\n * ")));
         },
         Ok(UserRequest::Manipulate { config_in, config_format }) => {
-            let config = read_config(&config_format, &config_in)?;
+            let mut config = read_config(&config_format, &config_in)?;
+            let errs = Config::convert_connections(&mut config.connection).into_iter().map(|c| c.to_string()).collect::<Vec<String>>();
+            if !errs.is_empty() {
+                return Err(format!("Manipulate {}", errs.join("\n * ")));
+            }
             Ok(connection_manipulation_light(config)).map(UserResponse::Config)
         },
         Ok(UserRequest::Process { config_in, config_format }) => {
-            let mut config = connection_manipulation(read_config(&config_format, &config_in)?);
+            let mut config = read_config(&config_format, &config_in)?;
+            let errs = Config::convert_connections(&mut config.connection).into_iter().map(|c| c.to_string()).collect::<Vec<String>>();
+            if !errs.is_empty() {
+                return Err(format!("Process {}", errs.join("\n * ")));
+            }
+            let mut config = connection_manipulation(config);
 
             let errs = Config::lint(&mut config).into_iter()
                 .filter(|lint_err| !matches!(lint_err, ConfigLintWarning::InConfigButMissingFlowConnection { .. }))
-- 
2.43.0


From 864a55712f3443bb7bbd6cdffa71781d66bed811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:43 +0000
Subject: [PATCH 05/16] fix: report a program which cannot be started as an
 error instead of panicking

---
 src/launch.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/launch.rs b/src/launch.rs
index bc254fb..63a6c19 100644
--- a/src/launch.rs
+++ b/src/launch.rs
@@ -180,11 +180,16 @@ impl <E: IntoIterator<Item = (K, V)>,
             false => { child_builder.stderr(async_std::process::Stdio::null()); }
         }
 
-        let mut child = child_builder.spawn().map_err(
-            |_c| {
-                MotionError::LaunchSpawnError(self.command.as_ref().to_str().map(|s| s.to_owned()))
+        let mut child = match child_builder.spawn() {
+            Ok(child) => child,
+            Err(_) => {
+                // Whatever is reading from us must see that nothing will ever come
+                self.stdout = None;
+                self.stderr = None;
+                self.exit_status = None;
+                return Err(MotionError::LaunchSpawnError(self.command.as_ref().to_str().map(|s| s.to_owned())));
             }
-        ).unwrap();
+        };
 
         let child_stdin_push = match std::mem::take(&mut child.stdin) {
             Some(stdin) => {
-- 
2.43.0


From cd8285b92da4b3ca4379b42f24aa93b9f016dd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:43 +0000
Subject: [PATCH 06/16] fix: wait for a program which nothing reads from to
 finish

---
 src/config_manip.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/config_manip.rs b/src/config_manip.rs
index f19835a..36426c7 100644
--- a/src/config_manip.rs
+++ b/src/config_manip.rs
@@ -568,15 +568,17 @@ fn identify_required_spies_for_launch_exits(connections: &BTreeMap<String, Deser
         }
     }).collect();
 
-    let all_launch = connection_pairs.into_iter().fold(HashSet::new(), |mut acc, (first, _last)| {
-        match first {
-            Connection::StartConnection { component_type, component_name, .. }
-                if component_type == ComponentType::Launch => {
-                    acc.insert(component_name.clone());
-                    acc
-                },
-            _ => acc,
+    let all_launch = connection_pairs.into_iter().fold(HashSet::new(), |mut acc, (first, last)| {
+        for connection in [first, last] {
+            match connection {
+                Connection::StartConnection { component_type, component_name, .. } | Connection::EndConnection { component_type, component_name, .. }
+                    if component_type == ComponentType::Launch => {
+                        acc.insert(component_name);
+                    },
+                _ => {},
+            }
         }
+        acc
     });
 
     all_launch.into_iter().filter_map(|name| {
-- 
2.43.0


From 65e23316a2e24494fc3206b3267ba89b38332f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:15 +0000
Subject: [PATCH 07/16] fix: a faucet which cannot open its source must release
 its output

---
 src/faucet.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/faucet.rs b/src/faucet.rs
index ef5142d..337bb9b 100644
--- a/src/faucet.rs
+++ b/src/faucet.rs
@@ -91,8 +91,15 @@ impl StartableControl for Faucet {
         self.stdin = Some(match (self.pull_journey, read_location) {
             (Some(journey), Some(f)) if f == "-" => Pull::Stdin(journey, async_std::io::stdin(), ReadSplitControl::new()),
             (Some(journey), Some(filename)) => {
-                let file = async_std::fs::File::open(filename).await
-                    .map_err(|e| MotionError::OpenIOError(journey, Instant::now(), e))?;
+                let file = match async_std::fs::File::open(filename).await {
+                    Ok(file) => file,
+                    Err(e) => {
+                        // Whatever is reading from us must see that nothing will ever come
+                        self.stdout = None;
+                        self.control = None;
+                        return Err(MotionError::OpenIOError(journey, Instant::now(), e));
+                    }
+                };
                 Pull::File(journey, file, ReadSplitControl::new())
             },
             _ => Pull::None,
-- 
2.43.0


From 404bed49a960825306ea5e087d33a34aa27664c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:15 +0000
Subject: [PATCH 08/16] fix: release the control channel however a regulator or
 faucet stops

---
 src/faucet.rs    | 5 +++--
 src/regulator.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/faucet.rs b/src/faucet.rs
index 337bb9b..2c65d1a 100644
--- a/src/faucet.rs
+++ b/src/faucet.rs
@@ -118,6 +118,7 @@ impl Faucet {
 
         self.started = true;
         let mut read_count = 0;
+        let mut control_receiver = std::mem::take(&mut self.control);
 
         let mut notifications = MotionNotifications::empty();
         async fn control(opt_rec: &mut Option<Receiver<()>>) {
@@ -138,7 +139,7 @@ impl Faucet {
                             for push in &mut self.stdout {
                                 motion_close(push).await?
                             }
-                            if let Some(c) = &self.control {
+                            if let Some(c) = &control_receiver {
                                 c.close();
                             }
                             return MotionResult::Ok(read_count);
@@ -161,7 +162,7 @@ impl Faucet {
                     }
                 }?;
 
-                control(&mut self.control).await;
+                control(&mut control_receiver).await;
             }
         }
 
diff --git a/src/regulator.rs b/src/regulator.rs
index 512f0c1..4593b9b 100644
--- a/src/regulator.rs
+++ b/src/regulator.rs
@@ -104,6 +104,7 @@ impl Regulator {
 
         self.started = true;
         let mut read_count = 0;
+        let mut control_receiver = std::mem::take(&mut self.control);
 
         let mut notifications = MotionNotifications::empty();
         async fn control(opt_rec: &mut Option<Receiver<()>>) {
@@ -124,7 +125,7 @@ impl Regulator {
                             for push in &mut self.stdout {
                                 motion_close(push).await?
                             }
-                            if let Some(c) = &self.control {
+                            if let Some(c) = &control_receiver {
                                 c.close();
                             }
                             return MotionResult::Ok(read_count);
@@ -147,7 +148,7 @@ impl Regulator {
                     }
                 }?;
 
-                control(&mut self.control).await;
+                control(&mut control_receiver).await;
             }
         }
 
-- 
2.43.0


From afaecebd19eec9b78954816a7d50fde491bc00e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:46 +0000
Subject: [PATCH 09/16] fix: an empty source or destination means no input or
 no output, as the help says

---
 src/drain.rs  | 2 +-
 src/faucet.rs | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drain.rs b/src/drain.rs
index d57186e..7fb7b67 100644
--- a/src/drain.rs
+++ b/src/drain.rs
@@ -63,7 +63,7 @@ impl StartableControl for Drain {
         if let Some(pull) = std::mem::take(&mut self.stdin) {
 
             let push = match (pull.journey(), std::mem::take(&mut self.write_location)) {
-                (Some(PullJourney { .. }), Some(f)) if f == "/dev/null" => Push::None,
+                (Some(PullJourney { .. }), Some(f)) if f.is_empty() || f == "/dev/null" => Push::None,
                 (Some(PullJourney { src, dst }), Some(f)) if f == "-" => Push::Stdout(Journey { src: *src, src_port: None, dst: *dst, breakable: Breakable::Terminate }, async_std::io::stdout()),
                 (Some(PullJourney { src, dst }), Some(f)) if f == "_" => Push::Stderr(Journey { src: *src, src_port: None, dst: *dst, breakable: Breakable::Terminate }, async_std::io::stderr()),
                 (Some(PullJourney { src, dst }), Some(filename)) => {
diff --git a/src/faucet.rs b/src/faucet.rs
index 2c65d1a..8ad798b 100644
--- a/src/faucet.rs
+++ b/src/faucet.rs
@@ -90,6 +90,7 @@ impl StartableControl for Faucet {
         let read_location = std::mem::take(&mut self.read_location);
         self.stdin = Some(match (self.pull_journey, read_location) {
             (Some(journey), Some(f)) if f == "-" => Pull::Stdin(journey, async_std::io::stdin(), ReadSplitControl::new()),
+            (Some(_), Some(f)) if f.is_empty() => Pull::None,
             (Some(journey), Some(filename)) => {
                 let file = match async_std::fs::File::open(filename).await {
                     Ok(file) => file,
-- 
2.43.0


From 2904006ac92a0d61b76e7afa5e62343380debe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:53 +0000
Subject: [PATCH 10/16] fix: refuse a configuration in which a buffer is
 monitored more than once

---
 src/waiter.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/waiter.rs b/src/waiter.rs
index 5a22ba4..47183c0 100644
--- a/src/waiter.rs
+++ b/src/waiter.rs
@@ -10,7 +10,7 @@ use crate::config::Connection;
 use crate::connectable::ConnectableError;
 use crate::connectable::{ Connectable, InputPort, OutputPort };
 use crate::{buffer::{Buffer, BufferSizeMessage}, drain::Drain, faucet::Faucet, regulator::{Regulator, RegulatorControl}, junction::Junction, launch::Launch, motion::MotionError, startable_control::StartableControl};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use async_std::channel::Sender;
 use async_std::{channel::Receiver, prelude::*};
 
@@ -575,8 +575,14 @@ pub fn get_waiter(mut config: Config) -> Result<Waiter, String> {
         }
     }
 
+    let mut already_monitored: HashSet<String> = HashSet::new();
     for (regulator_name, RegulatorConfig { monitored_buffers, buffered}) in config.regulator.into_iter() {
         if let Some(b) = buffered {
+            for buffer_name in monitored_buffers.iter() {
+                if !already_monitored.insert(buffer_name.clone()) {
+                    return Err(format!("Buffer '{}' is monitored more than once", buffer_name));
+                }
+            }
             waiter.configure_regulator(regulator_name, monitored_buffers, b.0, b.1);
         }
     }
-- 
2.43.0


From ae3e8254fb4fc4fcea9bd582d580b056dd7d0d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:32 +0000
Subject: [PATCH 11/16] fix: tell a failed resume from a failed pause in error
 messages

---
 src/waiter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waiter.rs b/src/waiter.rs
index 47183c0..501b3b0 100644
--- a/src/waiter.rs
+++ b/src/waiter.rs
@@ -131,7 +131,7 @@ impl WaiterError {
             WaiterError::SettingsForMissingRegulator(s) => format!("There are no settings for Faucet:{}", s),
             WaiterError::SettingsRefersMissingBuffer(f, b) => format!("Faucet {} refers to buffer {} which does not exist", f, b),
             WaiterError::CouldNotPause => "CouldNotPause".to_string(),
-            WaiterError::CouldNotResume => "CouldNotPause".to_string(),
+            WaiterError::CouldNotResume => "CouldNotResume".to_string(),
         }
     }
 
-- 
2.43.0


From 847c948b88c2ab0c779cd72b9d72f4ab135a5f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:16 +0000
Subject: [PATCH 12/16] fix: refuse a connection set which is not a sequence of
 components instead of panicking

---
 src/bin/pa2.rs      | 10 +++++++++-
 src/config_manip.rs | 16 ++++++++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/bin/pa2.rs b/src/bin/pa2.rs
index 4ccc35d..cb73228 100644
--- a/src/bin/pa2.rs
+++ b/src/bin/pa2.rs
@@ -1,7 +1,7 @@
 use pipeawesome2::bin_support::waiter_error_to_string;
 use pipeawesome2::config::quick_add_connection_set;
 use pipeawesome2::config_io::{ read_config, ConfigFormat };
-use pipeawesome2::config_manip::{connection_manipulation, connection_manipulation_light};
+use pipeawesome2::config_manip::{broken_connection_sets, connection_manipulation, connection_manipulation_light};
 use pipeawesome2::graph;
 use pipeawesome2::waiter::get_waiter;
 use pipeawesome2::config::Connection;
@@ -515,6 +515,10 @@ fn process_user_config_action(result_config: Result<UserRequest, String>) -> Res
             if !errs.is_empty() {
                 return Err(format!("Manipulate {}", errs.join("\n * ")));
             }
+            let broken = broken_connection_sets(&config.connection);
+            if !broken.is_empty() {
+                return Err(format!("Manipulate: Not a sequence of connected components: {}", broken.join(", ")));
+            }
             Ok(connection_manipulation_light(config)).map(UserResponse::Config)
         },
         Ok(UserRequest::Process { config_in, config_format }) => {
@@ -523,6 +527,10 @@ fn process_user_config_action(result_config: Result<UserRequest, String>) -> Res
             if !errs.is_empty() {
                 return Err(format!("Process {}", errs.join("\n * ")));
             }
+            let broken = broken_connection_sets(&config.connection);
+            if !broken.is_empty() {
+                return Err(format!("Process: Not a sequence of connected components: {}", broken.join(", ")));
+            }
             let mut config = connection_manipulation(config);
 
             let errs = Config::lint(&mut config).into_iter()
diff --git a/src/config_manip.rs b/src/config_manip.rs
index 36426c7..65c644d 100644
--- a/src/config_manip.rs
+++ b/src/config_manip.rs
@@ -789,6 +789,22 @@ fn test_add_launch_exit_spies() {
 
 
 
+/// The names of the connection sets which do not go from one component to another,
+/// one after the other (only possible if they were not written as a JoinString)
+pub fn broken_connection_sets(connections: &BTreeMap<String, DeserializedConnection>) -> Vec<String> {
+    connections.iter()
+        .filter(|(_, v)| {
+            let cs = Config::quick_deserialized_connection_to_connection(v);
+            cs.len() == 1 || cs.iter().enumerate().any(|(i, c)| match c {
+                Connection::StartConnection { .. } => i > 0,
+                Connection::EndConnection { .. } => i + 1 < cs.len(),
+                Connection::MiddleConnection { .. } => false,
+            })
+        })
+        .map(|(k, _)| k.to_string())
+        .collect()
+}
+
 pub fn connection_manipulation(mut config: Config) -> Config {
     let mut read_config_connections = std::mem::take(&mut config.connection);
     Config::convert_connections(&mut read_config_connections);
-- 
2.43.0


From 4f6181b097c722de3f6ae1c857b23ef879b15d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:08 +0000
Subject: [PATCH 13/16] fix: do not give an exit status drain the name of a
 drain that is connected but not configured

---
 src/config_manip.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/config_manip.rs b/src/config_manip.rs
index 65c644d..302a1c0 100644
--- a/src/config_manip.rs
+++ b/src/config_manip.rs
@@ -652,7 +652,12 @@ fn test_identify_required_spies_for_launch_exits() {
 fn add_launch_exit_spies(config: &mut Config, to_add: Vec<String>) {
 
     let mut existing_connection_keys = config.connection.keys().map(|x| x.clone()).collect();
-    let mut existing_drains = config.drain.keys().map(|x| x.clone()).collect();
+    let mut existing_drains: HashSet<String> = config.drain.keys().map(|x| x.clone()).collect();
+    // A drain which is connected but not configured must not be mistaken for one of ours
+    existing_drains.extend(config.connection.values().flat_map(Config::quick_deserialized_connection_to_connection).filter_map(|c| match c {
+        Connection::EndConnection { component_type: ComponentType::Drain, component_name, .. } => Some(component_name.clone()),
+        _ => None,
+    }));
 
     for launch_name in to_add {
         let new_drain_key = generate_new_key("dyn_drain", &existing_drains);
-- 
2.43.0


From 31bc84515ffa196d4dd40f5874b9b9645ec6e206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 14/16] fix: quote names in the graph, so that Graphviz can
 read it whatever the names are

---
 src/graph.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index a48f415..dc65982 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -124,8 +124,12 @@ pub fn get_diagram(components: HashMap<&ComponentType, Vec<&str>>, connections:
         }
     }
 
+    fn quoted(s: &str) -> String {
+        format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
+    }
+
     fn node_id(component_type: &ComponentType, name: &str) -> NodeId {
-        NodeId(Id::Plain(format!("{}_{}", component_type_to_letter(component_type), name)), None)
+        NodeId(Id::Plain(quoted(&format!("{}_{}", component_type_to_letter(component_type), name))), None)
     }
 
     fn get_connection_set_name(possible_graph_connection_for_connection_set: Option<&GraphConnection>, component_type: &ComponentType, component_name: &str) -> String {
@@ -169,7 +173,7 @@ pub fn get_diagram(components: HashMap<&ComponentType, Vec<&str>>, connections:
         BTreeMap::new(),
         |mut acc, (component_type, component_names)| {
             for component_name in component_names {
-                let label = component_name;
+                let label = quoted(component_name);
                 let connection_set_graph_connection: Option<&GraphConnection> = connections.iter().find(|connection| {
                     (
                         (connection.src.1 == *component_name) && (connection.src.0 == *component_type)
@@ -221,7 +225,7 @@ pub fn get_diagram(components: HashMap<&ComponentType, Vec<&str>>, connections:
     }
 
     let mut stmts: Vec<Stmt> = graph_components.into_iter().fold(FrontAndBack::new(), |mut acc, (connection_set, nodes)| {
-        let title = format!("\"{}:\"", connection_set);
+        let title = quoted(&format!("{}:", connection_set));
         let rank = if connection_set_with_faucet.contains(&connection_set) { "min" }
             else if connection_set_with_drain.contains(&connection_set) { "max" }
             else { "same" };
@@ -233,7 +237,7 @@ pub fn get_diagram(components: HashMap<&ComponentType, Vec<&str>>, connections:
         }
         stmts.append(&mut stmts_to_add.into_iter().collect::<Vec<Stmt>>());
         let subgraph = Stmt::Subgraph(Subgraph {
-            id: id!(format!("cluster_nodes_{}", connection_set)),
+            id: id!(quoted(&format!("cluster_nodes_{}", connection_set))),
             stmts
         });
         if connection_set_with_faucet.contains(&connection_set) {
-- 
2.43.0


From ebab50548c39ea8585c4c702b7821187f628f259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:12 +0000
Subject: [PATCH 15/16] fix: draw every connection between the same two
 components, not just the last

---
 src/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.rs b/src/graph.rs
index dc65982..912e055 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -80,7 +80,7 @@ pub fn get_graph(subgraph: Vec<Subgraph>) -> String {
 
     let graph = Graph::DiGraph {
         id: Id::Plain("g_get_graph".to_string()),
-        strict: true,
+        strict: false,
         stmts
     };
 
-- 
2.43.0


From d11e74626e70e55e260b51bdb27ff605588e927b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:41 +0000
Subject: [PATCH 16/16] fix: a launch lets go of its exit status output however
 it stops

---
 src/launch.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/launch.rs b/src/launch.rs
index 63a6c19..acd455c 100644
--- a/src/launch.rs
+++ b/src/launch.rs
@@ -235,7 +235,7 @@ impl <E: IntoIterator<Item = (K, V)>,
 
         let r_out_prep: ((MotionResult<usize>, MotionResult<usize>), MotionResult<usize>) = r_input.join(r2).join(r3).await;
 
-        if let Some((journey, exit_status_tx)) = &mut self.exit_status {
+        if let Some((journey, exit_status_tx)) = std::mem::take(&mut self.exit_status) {
             loop {
                 let msg = match child.status().await.ok().map(|es| es.code()) {
                     Some(Some(exit_status)) => {
@@ -250,7 +250,7 @@ impl <E: IntoIterator<Item = (K, V)>,
                 };
                 match msg {
                     Some(m) => {
-                        exit_status_tx.send(m.clone()).await.map_err(|e| MotionError::SendError(*journey, Instant::now(), e))?;
+                        exit_status_tx.send(m.clone()).await.map_err(|e| MotionError::SendError(journey, Instant::now(), e))?;
                         if let (Some(spy), src, dst, Some(src_port)) = (spy, journey.src, journey.dst, journey.src_port) {
                             let spy_msg = SpyMessage { src, msg: IODataWrapper::IOData(m), dst, src_port };
                             spy.send(spy_msg).await.map_err(|e| MotionError::SpyWriteError(Instant::now(), e))?;
-- 
2.43.0

