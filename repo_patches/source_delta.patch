From 7a8c6eb6f6f1ea90984da3b7bc99560465db46bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 01/19] fix: commands without a configured STDIN no longer
 consume URL Cleaner's own STDIN

---
 src/glue/command.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glue/command.rs b/src/glue/command.rs
index 5b48067..76c8d33 100644
--- a/src/glue/command.rs
+++ b/src/glue/command.rs
@@ -156,6 +156,8 @@ impl CommandConfig {
             child_stdin.write_all(get_string!(stdin, job_state, CommandError).as_bytes())?;
             child
         } else {
+            // Without this the command would consume the tasks waiting in URL Cleaner's own STDIN.
+            command.stdin(Stdio::null());
             command.spawn()?
         };
         Ok(from_utf8(&child.wait_with_output()?.stdout)?.to_string())
-- 
2.43.0


From 1c23881eb0f87eb85b830f7ba7f195087edd8ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 02/19] fix: write a command's STDIN while reading its STDOUT,
 and let commands ignore their STDIN

---
 src/glue/command.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/glue/command.rs b/src/glue/command.rs
index 76c8d33..b2c9f29 100644
--- a/src/glue/command.rs
+++ b/src/glue/command.rs
@@ -3,7 +3,8 @@
 //! No the default config does not and will never use this.
 
 use std::process::{Command, Stdio};
-use std::io::Write;
+use std::io::{self, Write};
+use std::thread;
 use std::path::PathBuf;
 use std::str::{from_utf8, FromStr};
 use std::collections::HashMap;
@@ -149,18 +150,27 @@ impl CommandConfig {
         let mut command = self.build(job_state)?;
         command.stdout(Stdio::piped());
         command.stderr(Stdio::null());
-        let child = if let Some(stdin) = &self.stdin {
+        let output = if let Some(stdin) = &self.stdin {
+            let stdin = get_string!(stdin, job_state, CommandError);
             command.stdin(Stdio::piped());
             let mut child=command.spawn()?;
-            let child_stdin=child.stdin.as_mut().expect("The STDIN just set to be available."); // This never panics.
-            child_stdin.write_all(get_string!(stdin, job_state, CommandError).as_bytes())?;
-            child
+            let mut child_stdin=child.stdin.take().expect("The STDIN just set to be available."); // This never panics.
+            // STDIN is written while STDOUT is being read, because a command that fills up its STDOUT before having read all its STDIN would otherwise never finish.
+            thread::scope(|scope| {
+                let writer = thread::Builder::new().spawn_scoped(scope, move || child_stdin.write_all(stdin.as_bytes()))?;
+                let output = child.wait_with_output()?;
+                match writer.join().expect("Writing to STDIN to never panic.") {
+                    // The command is allowed to not read all of its STDIN.
+                    Err(e) if e.kind() != io::ErrorKind::BrokenPipe => Err(e),
+                    _ => Ok(output)
+                }
+            })?
         } else {
             // Without this the command would consume the tasks waiting in URL Cleaner's own STDIN.
             command.stdin(Stdio::null());
-            command.spawn()?
+            command.spawn()?.wait_with_output()?
         };
-        Ok(from_utf8(&child.wait_with_output()?.stdout)?.to_string())
+        Ok(from_utf8(&output.stdout)?.to_string())
     }
 
     /// Executes the command and gets a [`Url`] from the first and only line of its STDOUT, trimming any trailing `\r` and `\n`.
-- 
2.43.0


From 1203bf5cb4db7bc29ad7990349fbe2fdbafd5b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:54 +0000
Subject: [PATCH 03/19] fix: stop reading STDIN after a read error instead of
 reporting it forever

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 58a60fd..0e31e64 100755
--- a/src/main.rs
+++ b/src/main.rs
@@ -181,7 +181,12 @@ fn main() -> Result<ExitCode, CliError> {
             let task_config_strings_source: Box<dyn Iterator<Item = Result<String, io::Error>>> = {
                 let ret = args.urls.into_iter().map(Ok);
                 if !io::stdin().is_terminal() {
-                    Box::new(ret.chain(io::stdin().lines()))
+                    // Once reading STDIN fails every further read can fail the same way, so the first error that isn't a property of just the one line is the last "line".
+                    Box::new(ret.chain(io::stdin().lines().scan(false, |stop, line| {
+                        if *stop {return None;}
+                        *stop = matches!(&line, Err(e) if e.kind() != io::ErrorKind::InvalidData);
+                        Some(line)
+                    })))
                 } else {
                     Box::new(ret)
                 }
-- 
2.43.0


From 627c55c129f8c4e16f8358e96a6ce8cc4ccf6dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 04/19] fix: report failing to write the end of STDOUT instead
 of exiting as if all went well

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 0e31e64..a02721a 100755
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,7 +1,7 @@
 
 
 use std::path::PathBuf;
-use std::io::{self, IsTerminal};
+use std::io::{self, IsTerminal, Write};
 use std::borrow::Cow;
 use std::process::ExitCode;
 use std::str::FromStr;
@@ -273,6 +273,9 @@ fn main() -> Result<ExitCode, CliError> {
                         }
                     }
                 }
+
+                // Otherwise whatever's still buffered is written when the process exits and failing to do so is silently ignored.
+                io::stdout().flush().expect("Writing to STDOUT to work fine.");
             } else {
                 out_recievers.iter().cycle().find(|x| x.recv().is_err());
             }
-- 
2.43.0


From 657bb98c25d19a9eb289e4810f68737832a1bb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 05/19] fix: apply HttpClientConfigDiff::referer to the referer
 setting instead of no_proxy

---
 src/glue/http_client_config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glue/http_client_config.rs b/src/glue/http_client_config.rs
index f5b0982..6018f40 100644
--- a/src/glue/http_client_config.rs
+++ b/src/glue/http_client_config.rs
@@ -146,7 +146,7 @@ impl HttpClientConfigDiff {
         if let Some(set_proxies) = &self.set_proxies {to.proxies.clone_from(set_proxies);}
         to.proxies.extend(self.add_proxies.clone());
         if let Some(no_proxy) = self.no_proxy {to.no_proxy = no_proxy;}
-        if let Some(referer) = self.referer {to.no_proxy = referer;}
+        if let Some(referer) = self.referer {to.referer = referer;}
         to.extra_certificates.extend(self.add_extra_certificates.clone());
         to.extra_certificates.retain(|extra_certificate| !self.remove_extra_certificates.contains(extra_certificate));
     }
-- 
2.43.0


From d4b9bab2ccd004f2dde299c41a7eb57b17ca56a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:43 +0000
Subject: [PATCH 06/19] fix: apply --no-proxy when it is the only parameter
 option given

---
 src/types/config/params.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/config/params.rs b/src/types/config/params.rs
index d1d56b3..2355e51 100644
--- a/src/types/config/params.rs
+++ b/src/types/config/params.rs
@@ -391,7 +391,7 @@ impl ParamsDiffArgParser {
         let mut feature_flag_make_params_diff = false;
         #[cfg(feature = "cache")] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.read_cache.is_some()};
         #[cfg(feature = "cache")] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.write_cache.is_some()};
-        #[cfg(feature = "http" )] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.proxy.is_some()};
+        #[cfg(feature = "http" )] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.proxy.is_some() || self.no_proxy.is_some()};
         !self.flag.is_empty() || !self.unflag.is_empty() || !self.var.is_empty() || !self.unvar.is_empty() || !self.insert_into_set.is_empty() || !self.remove_from_set.is_empty() || !self.insert_into_map.is_empty() || !self.remove_from_map.is_empty() || feature_flag_make_params_diff
     }
 }
-- 
2.43.0


From 85144c172bacbc7578990f4572a04f6566803980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:48 +0000
Subject: [PATCH 07/19] fix: make the default config's tinyurl and shareasale
 rules obey no-network

---
 default-config.json | 85 +++++++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 38 deletions(-)

diff --git a/default-config.json b/default-config.json
index 560e03e..6e827be 100755
--- a/default-config.json
+++ b/default-config.json
@@ -636,30 +636,36 @@
 															]}
 														}}
 													}},
-													{"All": [
-														{"SetHost": "shareasale-analytics.com"},
-														{"AllowQueryParams": ["b", "u", "m"]},
-														{"Common": "universal"},
-														{"SetPart": {
-															"part": "Whole",
-															"value": {"Modified": {
-																"value": {"Cache": {
-																	"category": "sharesale-escaped-redirect",
-																	"key": {"Part": "Whole"},
-																	"value": {"ExtractBetween": {
-																		"value": {"HttpRequest": {}},
-																		"start": "replace(",
-																		"end": ")"
-																	}}
-																}},
-																"modification": "GetJsStringLiteralPrefix"
+													{"If": {
+														"condition": {"Not": {"FlagIsSet": "no-network"}},
+														"mapper": {"All": [
+															{"SetHost": "shareasale-analytics.com"},
+															{"AllowQueryParams": ["b", "u", "m"]},
+															{"Common": "universal"},
+															{"SetPart": {
+																"part": "Whole",
+																"value": {"Modified": {
+																	"value": {"Cache": {
+																		"category": "sharesale-escaped-redirect",
+																		"key": {"Part": "Whole"},
+																		"value": {"ExtractBetween": {
+																			"value": {"HttpRequest": {}},
+																			"start": "replace(",
+																			"end": ")"
+																		}}
+																	}},
+																	"modification": "GetJsStringLiteralPrefix"
+																}}
 															}}
-														}}
-													]}
+														]}
+													}}
 												]}
 											}},
 											"shareasale.com": {"If": {
-												"condition": {"PathIs": "/r.cfm"},
+												"condition": {"All": [
+													{"PathIs": "/r.cfm"},
+													{"Not": {"FlagIsSet": "no-network"}}
+												]},
 												"mapper": {"All": [
 													{"SetHost": "shareasale-analytics.com"},
 													{"AllowQueryParams": ["b", "u", "m"]},
@@ -770,25 +776,28 @@
 											}},
 											"t.umblr.com": {"GetUrlFromQueryParam": "z"},
 											"tee.pub": {"SetHost": "www.teepublic.com"},
-											"tinyurl.com": {"All": [
-												{"PartMap": {
-													"part": {"PathSegment": 0},
-													"map": {
-														"preview": "None",
-														"app": {"SetPart": {"part": {"PathSegment": 0}, "value": "preview"}}
-													},
-													"else": {"SetPart": {"part": {"BeforePathSegment": 0}, "value": "preview"}}
-												}},
-												{"Common": {
-													"name": "extract-from-page-no-if",
-													"args": {
-														"vars": {
-															"start": "let url = \"",
-															"end": "\""
+											"tinyurl.com": {"If": {
+												"condition": {"Not": {"FlagIsSet": "no-network"}},
+												"mapper": {"All": [
+													{"PartMap": {
+														"part": {"PathSegment": 0},
+														"map": {
+															"preview": "None",
+															"app": {"SetPart": {"part": {"PathSegment": 0}, "value": "preview"}}
+														},
+														"else": {"SetPart": {"part": {"BeforePathSegment": 0}, "value": "preview"}}
+													}},
+													{"Common": {
+														"name": "extract-from-page-no-if",
+														"args": {
+															"vars": {
+																"start": "let url = \"",
+																"end": "\""
+															}
 														}
-													}
-												}}
-											]},
+													}}
+												]}
+											}},
 											"toyhou.se": {"If": {
 												"condition": {"PathIs": "/~r"},
 												"mapper": {"GetUrlFromQueryParam": "q"}
-- 
2.43.0


From 61d425a9f379c11e9600c4b0533690d09318982e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:05 +0000
Subject: [PATCH 08/19] fix: open file:// cache paths as the file they name

---
 src/glue/caching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glue/caching.rs b/src/glue/caching.rs
index 9e143b5..9edfe9b 100644
--- a/src/glue/caching.rs
+++ b/src/glue/caching.rs
@@ -263,13 +263,13 @@ impl InnerCache {
         debug!(InnerCache::connect, self);
         if self.connection.get().is_none() {
             let mut needs_init = self.path == CachePath::Memory;
-            if let CachePath::Path(path) = &self.path {
+            if let Some(path) = self.path.as_path() {
                 if !std::fs::exists(path)? {
                     needs_init = true;
                     std::fs::File::create_new(path)?;
                 }
             }
-            let mut connection = SqliteConnection::establish(self.path.as_str())?;
+            let mut connection = SqliteConnection::establish(self.path.as_path().and_then(Path::to_str).unwrap_or(self.path.as_str()))?;
             if needs_init {
                 diesel::sql_query(DB_INIT_COMMAND).execute(&mut connection)?;
             }
-- 
2.43.0


From 75e677089580984a98c160a64526a820ab9c1315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:21 +0000
Subject: [PATCH 09/19] fix: make a cache write replace the existing entry as
 documented

---
 src/glue/caching.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/glue/caching.rs b/src/glue/caching.rs
index 9edfe9b..567faf8 100644
--- a/src/glue/caching.rs
+++ b/src/glue/caching.rs
@@ -304,13 +304,20 @@ impl InnerCache {
     /// # Errors
     /// If the call to [`Self::connect`] returns an error, that error is returned.
     ///
-    /// If the call to [`RunQueryDsl::get_result`] returns an error, that error is returned.
+    /// If the call to [`RunQueryDsl::execute`] to update or insert the entry returns an error, that error is returned.
     pub fn write(&mut self, category: &str, key: &str, value: Option<&str>) -> Result<(), WriteToCacheError> {
         debug!(InnerCache::write, self, category, key, value);
-        diesel::replace_into(cache::table)
-            .values(&NewCacheEntry {category, key, value})
-            .returning(CacheEntry::as_returning())
-            .get_result(self.connect()?)?;
+        let connection = self.connect()?;
+        let updated = diesel::update(cache::dsl::cache
+            .filter(cache::dsl::category.eq(category))
+            .filter(cache::dsl::key.eq(key)))
+            .set(cache::dsl::value.eq(value))
+            .execute(connection)?;
+        if updated == 0 {
+            diesel::insert_into(cache::table)
+                .values(&NewCacheEntry {category, key, value})
+                .execute(connection)?;
+        }
         Ok(())
     }
 }
-- 
2.43.0


From 73d561022ba296b98a356847b6df210e2f404c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 10/19] fix: create the cache table whenever it is missing, not
 only for a file that did not exist

---
 src/glue/caching.rs | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/glue/caching.rs b/src/glue/caching.rs
index 567faf8..4936738 100644
--- a/src/glue/caching.rs
+++ b/src/glue/caching.rs
@@ -8,6 +8,7 @@ use std::path::Path;
 use thiserror::Error;
 use serde::{Serialize, Deserialize};
 use diesel::prelude::*;
+use diesel::connection::SimpleConnection;
 
 use crate::types::*;
 use crate::util::*;
@@ -27,7 +28,9 @@ diesel::table! {
 }
 
 /// The Sqlite command to initialize the cache databese.
-pub const DB_INIT_COMMAND: &str = r#"CREATE TABLE cache (
+///
+/// Does nothing if the table already exists.
+pub const DB_INIT_COMMAND: &str = r#"CREATE TABLE IF NOT EXISTS cache (
     id INTEGER NOT NULL PRIMARY KEY,
     category TEXT NOT NULL,
     "key" TEXT NOT NULL,
@@ -251,28 +254,15 @@ impl InnerCache {
 
     /// Returns the connection, connecting if not already connected.
     /// # Errors
-    /// If the call to [`std::fs::exists`] to check if the database exists returns an error, that error is returned.
-    ///
-    /// If the call to [`std::fs::File::create_new`] to create the database returns an error, that error is returned.
-    ///
     /// If the call to [`SqliteConnection::establish`] to connect to the database returns an error, that error is returned.
     ///
-    /// If the call to [`SqlQuery::execute`] to initialize the database returns an error, that error is returned.
+    /// If the call to [`SimpleConnection::batch_execute`] to initialize the database returns an error, that error is returned.
     #[allow(clippy::missing_panics_doc, reason = "Doesn't panic, but should be replaced with OnceCell::get_or_try_init once that's stable.")]
     pub fn connect(&mut self) -> Result<&mut SqliteConnection, ConnectCacheError> {
         debug!(InnerCache::connect, self);
         if self.connection.get().is_none() {
-            let mut needs_init = self.path == CachePath::Memory;
-            if let Some(path) = self.path.as_path() {
-                if !std::fs::exists(path)? {
-                    needs_init = true;
-                    std::fs::File::create_new(path)?;
-                }
-            }
             let mut connection = SqliteConnection::establish(self.path.as_path().and_then(Path::to_str).unwrap_or(self.path.as_str()))?;
-            if needs_init {
-                diesel::sql_query(DB_INIT_COMMAND).execute(&mut connection)?;
-            }
+            connection.batch_execute(DB_INIT_COMMAND)?;
             self.connection.set(connection).map_err(|_| ()).expect("The connection to have just been confirmed unset.");
         }
         Ok(self.connection.get_mut().expect("The connection to have just been set."))
-- 
2.43.0


From f449ae15280d6273c952fbae62a5814c939bd0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 11/19] fix: wait for other processes using the cache file
 instead of failing

---
 src/glue/caching.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glue/caching.rs b/src/glue/caching.rs
index 4936738..2cb2085 100644
--- a/src/glue/caching.rs
+++ b/src/glue/caching.rs
@@ -37,6 +37,9 @@ pub const DB_INIT_COMMAND: &str = r#"CREATE TABLE IF NOT EXISTS cache (
     value TEXT
 )"#;
 
+/// The Sqlite command that makes accessing the cache database wait for other processes using it, instead of failing.
+pub const BUSY_TIMEOUT_COMMAND: &str = "PRAGMA busy_timeout = 60000";
+
 /// An entry in the cache database.
 #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Queryable, Selectable)]
 #[diesel(table_name = cache)]
@@ -256,12 +259,13 @@ impl InnerCache {
     /// # Errors
     /// If the call to [`SqliteConnection::establish`] to connect to the database returns an error, that error is returned.
     ///
-    /// If the call to [`SimpleConnection::batch_execute`] to initialize the database returns an error, that error is returned.
+    /// If the call to [`SimpleConnection::batch_execute`] to set the busy timeout or to initialize the database returns an error, that error is returned.
     #[allow(clippy::missing_panics_doc, reason = "Doesn't panic, but should be replaced with OnceCell::get_or_try_init once that's stable.")]
     pub fn connect(&mut self) -> Result<&mut SqliteConnection, ConnectCacheError> {
         debug!(InnerCache::connect, self);
         if self.connection.get().is_none() {
             let mut connection = SqliteConnection::establish(self.path.as_path().and_then(Path::to_str).unwrap_or(self.path.as_str()))?;
+            connection.batch_execute(BUSY_TIMEOUT_COMMAND)?;
             connection.batch_execute(DB_INIT_COMMAND)?;
             self.connection.set(connection).map_err(|_| ()).expect("The connection to have just been confirmed unset.");
         }
-- 
2.43.0


From eccbe3a21f3687f985aead5ec7fb991ec2a32b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 12/19] fix: keep every --insert-into-set, --remove-from-set,
 --insert-into-map and --remove-from-map given for the same name

---
 src/types/config/params.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/types/config/params.rs b/src/types/config/params.rs
index 2355e51..b373a6f 100644
--- a/src/types/config/params.rs
+++ b/src/types/config/params.rs
@@ -344,8 +344,26 @@ impl ParamsDiffArgParser {
             }).collect::<Result<_, _>>()?,
             unvars : self.unvar.into_iter().collect(),
             init_sets: Default::default(),
-            insert_into_sets: self.insert_into_set.into_iter().map(|mut x| if !x.is_empty() {Ok((x.swap_remove(0), x))} else {Err(ParamsDiffArgParserValueWrong::InsertIntoSetsNoName)}).collect::<Result<_, _>>()?,
-            remove_from_sets: self.remove_from_set.into_iter().map(|mut x| if !x.is_empty() {Ok((x.swap_remove(0), x))} else {Err(ParamsDiffArgParserValueWrong::RemoveFromSetsNoName)}).collect::<Result<_, _>>()?,
+            insert_into_sets: {
+                let mut ret = HashMap::<String, Vec<String>>::new();
+
+                for invocation in self.insert_into_set {
+                    let mut x = invocation.into_iter();
+                    ret.entry(x.next().ok_or(ParamsDiffArgParserValueWrong::InsertIntoSetsNoName)?).or_default().extend(x);
+                }
+
+                ret
+            },
+            remove_from_sets: {
+                let mut ret = HashMap::<String, Vec<String>>::new();
+
+                for invocation in self.remove_from_set {
+                    let mut x = invocation.into_iter();
+                    ret.entry(x.next().ok_or(ParamsDiffArgParserValueWrong::RemoveFromSetsNoName)?).or_default().extend(x);
+                }
+
+                ret
+            },
             delete_sets     : Default::default(),
             init_maps       : Default::default(),
             map_diffs       : {
@@ -354,7 +372,7 @@ impl ParamsDiffArgParser {
                 for invocation in self.insert_into_map {
                     if invocation.len() % 2 == 1 {
                         let mut x = invocation.into_iter();
-                        ret.entry(x.next().ok_or(ParamsDiffArgParserValueWrong::InsertIntoMapNoName)?).or_default().insert_into_map = std::iter::from_fn(|| x.next().zip(x.next())).collect();
+                        ret.entry(x.next().ok_or(ParamsDiffArgParserValueWrong::InsertIntoMapNoName)?).or_default().insert_into_map.extend(std::iter::from_fn(|| x.next().zip(x.next())));
                     } else {
                         Err(ParamsDiffArgParserValueWrong::InsertIntoMapKeyWithoutValue)?
                     }
@@ -364,7 +382,7 @@ impl ParamsDiffArgParser {
                     if !invocation.is_empty() {
                         let mut x = invocation.into_iter();
                         let name = x.next().ok_or(ParamsDiffArgParserValueWrong::RemoveFromMapNoMapSpecified)?;
-                        ret.entry(name).or_default().remove_from_map = x.collect();
+                        ret.entry(name).or_default().remove_from_map.extend(x);
                     } else {
                         Err(ParamsDiffArgParserValueWrong::RemoveFromMapNoMapSpecified)?
                     }
-- 
2.43.0


From 86d0880ec556811e5573b4e10f16f556a1601ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:04 +0000
Subject: [PATCH 13/19] fix: HTML attribute parsing slices non-ASCII text at
 character counts instead of byte offsets

---
 src/glue/parse/html/get_attribute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glue/parse/html/get_attribute.rs b/src/glue/parse/html/get_attribute.rs
index 96b4eb1..db117d8 100644
--- a/src/glue/parse/html/get_attribute.rs
+++ b/src/glue/parse/html/get_attribute.rs
@@ -176,7 +176,7 @@ pub fn get_attribute_value<'a>(input: &'a str, name: &'a str) -> Result<Option<O
         attr_value_start: 0
     };
 
-    for (i, c) in input.chars().enumerate() {
+    for (i, c) in input.char_indices() {
         if let Err(e) = munch(&mut state, i, c) {
             return Err(GAVError::Syntax {
                 index: i,
-- 
2.43.0


From 9af8aaa35f76b78971f028a0eb57a57595371593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:04 +0000
Subject: [PATCH 14/19] fix: CharMatcher::IsDigitRadix panics with radices 0
 and 1

---
 src/types/char_matcher.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/char_matcher.rs b/src/types/char_matcher.rs
index 83369d2..18f64f6 100644
--- a/src/types/char_matcher.rs
+++ b/src/types/char_matcher.rs
@@ -72,7 +72,7 @@ pub enum CharMatcher {
     IsDigit,
     /// [`char::is_digit`].
     /// # Errors
-    /// If the radix is greater than 36, returns the error [`CharMatcherError::InvalidRadix`].
+    /// If the radix is less than 2 or greater than 36, returns the error [`CharMatcherError::InvalidRadix`].
     IsDigitRadix(u32),
     /// [`char::is_lowercase`].
     IsLowercase,
@@ -85,7 +85,7 @@ pub enum CharMatcher {
 }
 #[derive(Debug, Error)]
 pub enum CharMatcherError {
-    #[error("Invalid radix: {0}. Radix must be between 0 and 36 inclusive. See [`char::is_digit`] for details.")]
+    #[error("Invalid radix: {0}. Radix must be between 2 and 36 inclusive. See [`char::is_digit`] for details.")]
     InvalidRadix(u32),
     #[error("CharMatcher::Error was used.")]
     ExplicitError,
@@ -169,7 +169,7 @@ impl CharMatcher {
             Self::IsAsciiWhitespace   => c.is_ascii_whitespace(),
             Self::IsControl           => c.is_control(),
             Self::IsDigit             => c.is_ascii_digit(),
-            Self::IsDigitRadix(radix) => if *radix <= 36 {c.is_digit(*radix)} else {Err(CharMatcherError::InvalidRadix(*radix))?},
+            Self::IsDigitRadix(radix) => if (2..=36).contains(radix) {c.is_digit(*radix)} else {Err(CharMatcherError::InvalidRadix(*radix))?},
             Self::IsLowercase         => c.is_lowercase(),
             Self::IsNumeric           => c.is_numeric(),
             Self::IsUppercase         => c.is_uppercase(),
-- 
2.43.0


From 287a43c9b0504687d3ede053ef487f7cf6123c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:04 +0000
Subject: [PATCH 15/19] fix: Removing the FQDN period of the host . panics
 instead of failing the task

---
 src/types/better_url.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/types/better_url.rs b/src/types/better_url.rs
index 6c3224a..d9c8f38 100644
--- a/src/types/better_url.rs
+++ b/src/types/better_url.rs
@@ -140,7 +140,10 @@ pub enum SetFqdnPeriodError {
     NoHost,
     /// Returned when the URL's host isn't a domain.
     #[error("The URL's host wasn't a domain.")]
-    HostIsNotADomain
+    HostIsNotADomain,
+    /// Returned when the call to [`BetterUrl::set_host`] returns an error, such as when removing the period would leave an empty host.
+    #[error(transparent)]
+    SetHostError(#[from] SetHostError)
 }
 
 /// The enum of errors [`BetterUrl::set_domain_host`] can return.
@@ -553,6 +556,8 @@ impl BetterUrl {
     /// If `self` doesn't have a host, returns the error [`SetFqdnPeriodError::NoHost`].
     ///
     /// If the host isn't a domain, returns the error [`SetFqdnPeriodError::HostIsNotADomain`].
+    ///
+    /// If the call to [`Self::set_host`] returns an error, such as when removing the period from `.`, the error is returned.
     /// # Examples
     /// ```
     /// use url_cleaner::types::*;
@@ -574,9 +579,9 @@ impl BetterUrl {
     pub fn set_fqdn(&mut self, to: bool) -> Result<(), SetFqdnPeriodError> {
         match (self.host_details(), to) {
             (Some(HostDetails::Domain(DomainDetails {fqdn_period: None   , ..})), false) => {},
-            (Some(HostDetails::Domain(DomainDetails {fqdn_period: None   , ..})), true ) => {self.set_host(Some(&format!("{}.", self.host_str().expect("The URL having a DomainDetails means it has a host.")))).expect("Adding a FQDN period to keep the host valid.")},
+            (Some(HostDetails::Domain(DomainDetails {fqdn_period: None   , ..})), true ) => {self.set_host(Some(&format!("{}.", self.host_str().expect("The URL having a DomainDetails means it has a host."))))?},
             #[expect(clippy::unnecessary_to_owned, reason = "It is necessary.")]
-            (Some(HostDetails::Domain(DomainDetails {fqdn_period: Some(_), ..})), false) => {self.set_host(Some(&self.host_str().expect("The URL having a DomainDetails means it has a host.").strip_suffix('.').expect("The URL's DomainDetails::fqdn_period being Some means the host ends with a period.").to_string())).expect("Removing a FQDN period to keep the host valid.")},
+            (Some(HostDetails::Domain(DomainDetails {fqdn_period: Some(_), ..})), false) => {self.set_host(Some(&self.host_str().expect("The URL having a DomainDetails means it has a host.").strip_suffix('.').expect("The URL's DomainDetails::fqdn_period being Some means the host ends with a period.").to_string()))?},
             (Some(HostDetails::Domain(DomainDetails {fqdn_period: Some(_), ..})), true ) => {},
             (Some(_), _) => Err(SetFqdnPeriodError::HostIsNotADomain)?,
             (None, _) => Err(SetFqdnPeriodError::NoHost)?
-- 
2.43.0


From 7e1d88ce2adb56d7ecc12e9e6769aa76310c70ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:04 +0000
Subject: [PATCH 16/19] fix: Adding, removing, or emptying the host of a URL
 leaves it in a state that makes later operations panic

---
 src/types/better_url.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/types/better_url.rs b/src/types/better_url.rs
index d9c8f38..324205d 100644
--- a/src/types/better_url.rs
+++ b/src/types/better_url.rs
@@ -353,7 +353,19 @@ impl BetterUrl {
     /// Sets the [`UrlPart::Host`].
     /// # Errors
     /// If the call to [`Url::set_host`] returns an error, the error is returned..
-    pub fn set_host         (&mut self, host    : Option<&str>) -> Result<(), SetHostError>     {self.url.set_host(host)?; self.host_details = self.url.host().map(|host| HostDetails::from_host(&host)); Ok(())}
+    pub fn set_host         (&mut self, host    : Option<&str>) -> Result<(), SetHostError>     {
+        if host.is_some_and(|host| !host.is_empty()) && self.url.host_str().is_some_and(|host| !host.is_empty()) {
+            self.url.set_host(host)?;
+        } else {
+            // When adding, removing, or emptying a host, [`Url::set_host`] can leave the URL in an invalid state that makes it and later calls to other methods panic or mangle the URL.
+            let mut url = self.url.clone();
+            if host.is_none() && url.has_host() && url.path().is_empty() {url.set_path("/");}
+            url.set_host(host)?;
+            self.url = Url::parse(url.as_str())?;
+        }
+        self.host_details = self.url.host().map(|host| HostDetails::from_host(&host));
+        Ok(())
+    }
     /// Sets the [`UrlPart::Host`].
     /// # Errors
     /// If the call to [`Url::set_ip_host`] returns an error, returns the error [`SetIpHostError`].
-- 
2.43.0


From 69b9391409bde563d5c39c715ca9a799dba2d1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:43 +0000
Subject: [PATCH 17/19] fix: SOCKS proxies given authentication their protocol
 doesn't support fail the task instead of panicking

---
 src/glue/http.rs               |  3 +++
 src/glue/http_client_config.rs | 16 ++++++++++++++--
 src/glue/proxy.rs              | 29 ++++++++++++++++++++++++++---
 src/types/job/task_state.rs    |  2 +-
 src/types/rules/mappers.rs     |  4 ++++
 5 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/src/glue/http.rs b/src/glue/http.rs
index da2199b..273232d 100644
--- a/src/glue/http.rs
+++ b/src/glue/http.rs
@@ -61,6 +61,9 @@ fn is_string_source_part_whole(value: &StringSource) -> bool {value == &get_stri
 /// The enum of erros [`RequestConfig::make`] can return.
 #[derive(Debug, Error)]
 pub enum MakeHttpRequestError {
+    /// Returned when a [`MakeHttpClientError`] is encountered.
+    #[error(transparent)]
+    MakeHttpClientError(#[from] MakeHttpClientError),
     /// Returned when a [`reqwest::Error`] is encountered.
     #[error(transparent)]
     ReqwestError(#[from] reqwest::Error),
diff --git a/src/glue/http_client_config.rs b/src/glue/http_client_config.rs
index 6018f40..1b3c248 100644
--- a/src/glue/http_client_config.rs
+++ b/src/glue/http_client_config.rs
@@ -3,6 +3,7 @@
 use std::collections::HashSet;
 
 use serde::{Serialize, Deserialize};
+use thiserror::Error;
 #[cfg(feature = "http")]
 use reqwest::header::HeaderMap;
 
@@ -83,13 +84,24 @@ impl From<RedirectPolicy> for reqwest::redirect::Policy {
     }
 }
 
+/// The enum of errors [`HttpClientConfig::make`] can return.
+#[derive(Debug, Error)]
+pub enum MakeHttpClientError {
+    /// Returned when a [`reqwest::Error`] is encountered.
+    #[error(transparent)]
+    ReqwestError(#[from] reqwest::Error),
+    /// Returned when a [`MakeProxyError`] is encountered.
+    #[error(transparent)]
+    MakeProxyError(#[from] MakeProxyError)
+}
+
 impl HttpClientConfig {
     /// Makes a [`reqwest::blocking::Client`].
     /// # Errors
     /// If a call to [`ProxyConfig::make`] returns an error, that error is returned.
     ///
     /// If the call to [`reqwest::blocking::ClientBuilder::build`] returns an error, that error is returned.
-    pub fn make(&self) -> reqwest::Result<reqwest::blocking::Client> {
+    pub fn make(&self) -> Result<reqwest::blocking::Client, MakeHttpClientError> {
         let mut temp = reqwest::blocking::Client::builder().default_headers(self.default_headers.clone())
             .redirect(self.redirect_policy.clone().into())
             .https_only(self.https_only)
@@ -101,7 +113,7 @@ impl HttpClientConfig {
             temp = temp.add_root_certificate(reqwest::tls::Certificate::from_pem(cert.as_bytes())?);
         }
         if self.no_proxy {temp = temp.no_proxy();}
-        temp.build()
+        Ok(temp.build()?)
     }
 }
 
diff --git a/src/glue/proxy.rs b/src/glue/proxy.rs
index 7575894..bb41207 100644
--- a/src/glue/proxy.rs
+++ b/src/glue/proxy.rs
@@ -3,6 +3,7 @@
 use std::str::FromStr;
 
 use serde::{Serialize, Deserialize};
+use thiserror::Error;
 use url::Url;
 use reqwest::header::HeaderValue;
 use reqwest::Proxy;
@@ -98,10 +99,30 @@ pub enum ProxyAuth {
     Custom(#[serde(with = "serde_headervalue")] HeaderValue)
 }
 
+/// The enum of errors [`ProxyConfig::make`] can return.
+#[derive(Debug, Error)]
+pub enum MakeProxyError {
+    /// Returned when a [`reqwest::Error`] is encountered.
+    #[error(transparent)]
+    ReqwestError(#[from] reqwest::Error),
+    /// Returned when a SOCKS proxy is given authentication its protocol doesn't support.
+    #[error("The SOCKS proxy was given authentication its protocol doesn't support.")]
+    UnsupportedSocksAuth
+}
+
 impl TryFrom<ProxyConfig> for reqwest::Proxy {
-    type Error = reqwest::Error;
+    type Error = MakeProxyError;
+
+    fn try_from(value: ProxyConfig) -> Result<Self, Self::Error> {
+        // [`Proxy`] panics when given authentication the protocol doesn't support.
+        if match value.url.scheme() {
+            "socks4" | "socks4a" => value.auth.is_some() || value.url.password().is_some(),
+            "socks5" | "socks5h" => matches!(value.auth, Some(ProxyAuth::Custom(_))),
+            _ => false
+        } {
+            Err(MakeProxyError::UnsupportedSocksAuth)?;
+        }
 
-    fn try_from(value: ProxyConfig) -> reqwest::Result<Self> {
         let temp = match value.mode {
             ProxyMode::Http  => Proxy::http (value.url),
             ProxyMode::Https => Proxy::https(value.url),
@@ -119,7 +140,9 @@ impl ProxyConfig {
     /// Makes a [`reqwest::Proxy`].
     /// # Errors
     /// If the call to [`Proxy::http`], [`Proxy::https`], or [`Proxy:;all`] return an error, that error is returned.
-    pub fn make(self) -> reqwest::Result<Proxy> {
+    ///
+    /// If [`Self::url`] is a SOCKS proxy whose protocol doesn't support the specified authentication, returns the error [`MakeProxyError::UnsupportedSocksAuth`].
+    pub fn make(self) -> Result<Proxy, MakeProxyError> {
         self.try_into()
     }
 }
diff --git a/src/types/job/task_state.rs b/src/types/job/task_state.rs
index 77fa9e6..2194380 100644
--- a/src/types/job/task_state.rs
+++ b/src/types/job/task_state.rs
@@ -102,7 +102,7 @@ impl<'a> TaskStateView<'a> {
     /// 
     /// If the call to [`reqwest::blocking::ClientBuilder::build`] returns ane error, that error is returned.
     #[cfg(feature = "http")]
-    pub fn http_client(&self, http_client_config_diff: Option<&HttpClientConfigDiff>) -> reqwest::Result<reqwest::blocking::Client> {
+    pub fn http_client(&self, http_client_config_diff: Option<&HttpClientConfigDiff>) -> Result<reqwest::blocking::Client, MakeHttpClientError> {
         debug!(Params::http_client, self, http_client_config_diff);
 
         let mut http_client_config = Cow::Borrowed(&self.params.http_client_config);
diff --git a/src/types/rules/mappers.rs b/src/types/rules/mappers.rs
index ee496e9..d4d6ed9 100644
--- a/src/types/rules/mappers.rs
+++ b/src/types/rules/mappers.rs
@@ -595,6 +595,10 @@ pub enum MapperError {
     #[cfg(feature = "http")]
     #[error(transparent)]
     ReqwestError(#[from] reqwest::Error),
+    /// Returned when a [`MakeHttpClientError`] is encountered.
+    #[cfg(feature = "http")]
+    #[error(transparent)]
+    MakeHttpClientError(#[from] MakeHttpClientError),
     /// Returned when a redirect's `Location` header isn't found.
     #[cfg(feature = "http")]
     #[error("The redirect's Location header wasn't found")]
-- 
2.43.0


From d63a094c529d28e5e4753b5696ec53ae0b810bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:44 +0000
Subject: [PATCH 18/19] fix: an error that formats to several lines is still
 written as one diagnostic line

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index a02721a..8d020aa 100755
--- a/src/main.rs
+++ b/src/main.rs
@@ -261,7 +261,8 @@ fn main() -> Result<ExitCode, CliError> {
                             },
                             Ok(Ok(Err(e))) => {
                                 println!();
-                                eprintln!("DoTaskError\t{e:?}");
+                                // Some errors, such as [`regex::Error`], format to multiple lines.
+                                eprintln!("DoTaskError\t{}", format!("{e:?}").replace('\n', "\\n"));
                                 *some_err_ref_lock = true;
                             }
                             Ok(Err(e)) => {
-- 
2.43.0


From c607cab29d6a420840c0fee647ca75b60bff8fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:51 +0000
Subject: [PATCH 19/19] fix: refuse duplicate entries in params and params
 diffs instead of silently keeping only the last

---
 src/types/config/params.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/types/config/params.rs b/src/types/config/params.rs
index b373a6f..1adda9b 100644
--- a/src/types/config/params.rs
+++ b/src/types/config/params.rs
@@ -4,7 +4,7 @@ use std::collections::{HashMap, HashSet};
 
 use serde::{Serialize, Deserialize};
 use thiserror::Error;
-use serde_with::serde_as;
+use serde_with::{serde_as, MapPreventDuplicates, SetPreventDuplicates};
 
 use crate::types::*;
 use crate::glue::*;
@@ -19,25 +19,25 @@ pub struct Params {
     /// Flags allow enabling and disabling certain behavior.
     ///
     /// Defaults to an empty [`HashSet`].
-    #[serde_with = "SetPreventDuplicates<_>"]
+    #[serde_as(as = "SetPreventDuplicates<_>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub flags: HashSet<String>,
     /// Vars allow setting strings used for certain behaviors.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub vars: HashMap<String, String>,
     /// Sets allow quickly checking if a string is in a certain genre of possible values.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub sets: HashMap<String, HashSet<String>>,
     /// Lists are a niche thing that lets you iterate over a set of values in a known order.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub lists: HashMap<String, Vec<String>>,
     /// Maps allow mapping input values to output values.
@@ -45,7 +45,7 @@ pub struct Params {
     /// Please note that [`Map`]s make this more powerful than a normal [`HashMap`], notably including a default value.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub maps: HashMap<String, Map<String>>,
     /// Named partitionings effectively let you check which if several sets a value is in.
@@ -53,7 +53,7 @@ pub struct Params {
     /// See [this Wikipedia article](https://en.wikipedia.org/wiki/Partition_of_a_set) for the math end of this idea.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub named_partitionings: HashMap<String, NamedPartitioning>,
     /// If [`true`], things that interact with the cache will read from the cache.
@@ -103,26 +103,26 @@ impl Default for Params {
 #[derive(Debug, Clone, Default, Deserialize, Serialize, PartialEq, Eq)]
 pub struct ParamsDiff {
     /// [`Params::flags`] to set.
-    #[serde_with = "SetPreventDuplicates<_>"]
+    #[serde_as(as = "SetPreventDuplicates<_>")]
     #[serde(default, skip_serializing_if = "is_default")] pub flags  : HashSet<String>,
     /// [`Params::flags`] to unset.
-    #[serde_with = "SetPreventDuplicates<_>"]
+    #[serde_as(as = "SetPreventDuplicates<_>")]
     #[serde(default, skip_serializing_if = "is_default")] pub unflags: HashSet<String>,
     /// [`Params::vars`] to set.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")] pub vars  : HashMap<String, String>,
     /// [`Params::vars`] to unset.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "SetPreventDuplicates<_>")]
     #[serde(default, skip_serializing_if = "is_default")] pub unvars: HashSet<String>,
     /// [`Params::sets`] to init.
     ///
     /// Shouldn't ever actually change anything, but if you're really fussy or something.
     #[serde(default, skip_serializing_if = "is_default")] pub init_sets: Vec<String>,
     /// [`Params::sets`] and values to insert into them.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")] pub insert_into_sets: HashMap<String, Vec<String>>,
     /// [`Params::sets`] and values to remove from them.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")] pub remove_from_sets: HashMap<String, Vec<String>>,
     /// [`Params::sets`] to delete.
     #[serde(default, skip_serializing_if = "is_default")] pub delete_sets: Vec<String>,
@@ -131,7 +131,7 @@ pub struct ParamsDiff {
     /// Shouldn't ever actually change anything, but if you're really fussy or something.
     #[serde(default, skip_serializing_if = "is_default")] pub init_maps: Vec<String>,
     /// [`MapDiff`]s to apply to [`Params::maps`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")] pub map_diffs: HashMap<String, MapDiff<String>>,
     /// [`Params::maps`] to delete.
     #[serde(default, skip_serializing_if = "is_default")] pub delete_maps: Vec<String>,
-- 
2.43.0

