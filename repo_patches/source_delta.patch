From d86ae714da22355b05d4edf91cee051d41682796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:35 +0000
Subject: [PATCH 01/39] fix: report files that cannot be read and exit with an
 error

Files and directories that could not be read were skipped without a word
and the command still exited successfully.
---
 crates/oxvg/src/walk.rs | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/crates/oxvg/src/walk.rs b/crates/oxvg/src/walk.rs
index 5422beb..9653099 100644
--- a/crates/oxvg/src/walk.rs
+++ b/crates/oxvg/src/walk.rs
@@ -4,6 +4,7 @@ use std::{
     ffi::OsStr,
     io::{IsTerminal, Read},
     path::PathBuf,
+    sync::atomic::{AtomicBool, Ordering},
 };
 
 use anyhow::anyhow;
@@ -98,7 +99,7 @@ impl Walk {
     ///
     /// # Errors
     ///
-    /// When invalid options are passed to [`Walk`].
+    /// When invalid options are passed to [`Walk`], or when any of the files cannot be read.
     pub fn run<F: Fn() -> FnVisitor>(&self, f: F) -> anyhow::Result<()> {
         if !std::io::stdin().is_terminal()
             && self.paths.len() <= 1
@@ -115,10 +116,15 @@ impl Walk {
             ));
         }
 
+        let error = AtomicBool::new(false);
         for path in &self.paths {
-            self.handle_path(path, &f);
+            self.handle_path(path, &f, &error);
+        }
+        if error.load(Ordering::Relaxed) {
+            Err(anyhow!("Failed to read all documents!"))
+        } else {
+            Ok(())
         }
-        Ok(())
     }
 
     fn handle_stdin(&self, mut f: FnVisitor) -> anyhow::Result<()> {
@@ -132,7 +138,7 @@ impl Walk {
         Ok(())
     }
 
-    fn handle_path<F: Fn() -> FnVisitor>(&self, path: &PathBuf, f: F) {
+    fn handle_path<F: Fn() -> FnVisitor>(&self, path: &PathBuf, f: F, error: &AtomicBool) {
         let output_path = |input: &PathBuf| {
             let Some(output) = self.output.as_ref().and_then(|output| output.first()) else {
                 return Ok(None);
@@ -156,8 +162,16 @@ impl Walk {
             .run(|| {
                 let mut visitor = f();
                 Box::new(move |path| {
-                    let Ok(path) = path else {
-                        return WalkState::Continue;
+                    let path = match path {
+                        Ok(path) => path,
+                        Err(err) => {
+                            // Partial errors are for ignore files, which don't prevent reading
+                            if !err.is_partial() {
+                                eprintln!("{err}");
+                                error.store(true, Ordering::Relaxed);
+                            }
+                            return WalkState::Continue;
+                        }
                     };
                     if path.file_type().is_none_or(|f| !f.is_file()) {
                         return WalkState::Continue;
@@ -169,8 +183,13 @@ impl Walk {
                     let Ok(output_path) = output_path(&path) else {
                         return WalkState::Continue;
                     };
-                    let Ok(file) = std::fs::read_to_string(path.clone()) else {
-                        return WalkState::Continue;
+                    let file = match std::fs::read_to_string(&path) {
+                        Ok(file) => file,
+                        Err(err) => {
+                            eprintln!("{}: {err}", path.display());
+                            error.store(true, Ordering::Relaxed);
+                            return WalkState::Continue;
+                        }
                     };
                     visitor(&file, Some(&path), output_path.as_ref());
                     WalkState::Continue
-- 
2.43.0


From 188ad93c4129260e28ef7d337c8a6cf7da9e6dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:17 +0000
Subject: [PATCH 02/39] fix: write each document completely or not at all

Errors while flushing a document were dropped, a failed or interrupted
write left a truncated file behind, and documents written to standard
output by several threads could be mixed up.
---
 crates/oxvg/src/walk.rs | 62 +++++++++++++++++++++++++++++++++++------
 1 file changed, 54 insertions(+), 8 deletions(-)

diff --git a/crates/oxvg/src/walk.rs b/crates/oxvg/src/walk.rs
index 9653099..1f8e243 100644
--- a/crates/oxvg/src/walk.rs
+++ b/crates/oxvg/src/walk.rs
@@ -2,9 +2,9 @@
 //! for reading, processing, and writing SVG documents.
 use std::{
     ffi::OsStr,
-    io::{IsTerminal, Read},
-    path::PathBuf,
-    sync::atomic::{AtomicBool, Ordering},
+    io::{ErrorKind, IsTerminal, Read, Write as _},
+    path::{Path, PathBuf},
+    sync::atomic::{AtomicBool, AtomicUsize, Ordering},
 };
 
 use anyhow::anyhow;
@@ -66,14 +66,15 @@ impl Output<'_, '_, '_> {
         if let Some(output) = self.destination {
             if is_stdin && output.metadata().is_ok_and(|f| f.is_dir()) {
                 eprintln!("Cannot use dir as output with stdin. Printing result to stdout instead");
-                self.dom.serialize_into(std::io::stdout(), self.options)?;
+                write_stdout(&self.dom.serialize_into(Vec::new(), self.options)?)?;
             } else {
                 if let Some(parent) = output.parent() {
                     std::fs::create_dir_all(parent)?;
                 }
-                let file = std::fs::File::create(output)?;
-                let writer = std::io::BufWriter::new(file);
-                self.dom.serialize_into(writer, self.options)?;
+                write_file(
+                    output,
+                    &self.dom.serialize_into(Vec::new(), self.options)?,
+                )?;
 
                 let input_kb = self.input_bytes / 1000.0;
                 let output_kb = output.metadata()?.len() as f64 / 1000.0;
@@ -87,12 +88,57 @@ impl Output<'_, '_, '_> {
                 }
             }
         } else {
-            self.dom.serialize_into(std::io::stdout(), self.options)?;
+            write_stdout(&self.dom.serialize_into(Vec::new(), self.options)?)?;
         }
         Ok(())
     }
 }
 
+/// Writes the whole of a document to standard output, without it being interleaved with the
+/// documents of other threads.
+pub(crate) fn write_stdout(content: &[u8]) -> std::io::Result<()> {
+    let mut stdout = std::io::stdout().lock();
+    stdout.write_all(content)?;
+    stdout.flush()
+}
+
+/// Writes the whole of a document to a file.
+///
+/// When writing fails or is interrupted the file is left as it was.
+pub(crate) fn write_file(path: &Path, content: &[u8]) -> std::io::Result<()> {
+    static COUNT: AtomicUsize = AtomicUsize::new(0);
+
+    // Replace the target of a link instead of the link
+    let path = match path.canonicalize() {
+        Err(err) if err.kind() == ErrorKind::NotFound => path.to_path_buf(),
+        result => result?,
+    };
+    let metadata = match path.metadata() {
+        Err(err) if err.kind() == ErrorKind::NotFound => None,
+        result => Some(result?),
+    };
+    // Special files (e.g. `/dev/null`) can only be written to
+    if metadata.as_ref().is_some_and(|m| !m.is_file()) {
+        return std::fs::write(path, content);
+    }
+
+    let temp = path.with_file_name(format!(
+        ".oxvg-{}-{}.tmp",
+        std::process::id(),
+        COUNT.fetch_add(1, Ordering::Relaxed)
+    ));
+    let write = || -> std::io::Result<()> {
+        std::fs::write(&temp, content)?;
+        if let Some(metadata) = metadata {
+            std::fs::set_permissions(&temp, metadata.permissions())?;
+        }
+        std::fs::rename(&temp, path)
+    };
+    write().inspect_err(|_| {
+        let _ = std::fs::remove_file(&temp);
+    })
+}
+
 impl Walk {
     /// Start visiting the paths in parallel. `f` is called for each thread
     /// and the resulting function is called for each path.
-- 
2.43.0


From cca5861b06827a8e6a60f9060cd911bb5023e019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:20 +0000
Subject: [PATCH 03/39] fix: exit with an error when a document fails to be
 optimised

---
 crates/oxvg/src/commands/optimise.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/crates/oxvg/src/commands/optimise.rs b/crates/oxvg/src/commands/optimise.rs
index 6afc5dd..68caf2e 100644
--- a/crates/oxvg/src/commands/optimise.rs
+++ b/crates/oxvg/src/commands/optimise.rs
@@ -1,4 +1,11 @@
-use std::{future, path::PathBuf};
+use std::{
+    future,
+    path::PathBuf,
+    sync::{
+        Arc,
+        atomic::{AtomicBool, Ordering},
+    },
+};
 
 use anyhow::anyhow;
 use oxvg_ast::{
@@ -62,10 +69,12 @@ impl Optimise {
     ///
     /// # Errors
     ///
-    /// When invalid options are given
+    /// When invalid options are given or when any of the documents fail to be optimised
     pub fn walk(self, jobs: Jobs) -> anyhow::Result<()> {
-        self.walk.run(move || {
+        let error = Arc::new(AtomicBool::new(false));
+        self.walk.run(|| {
             let jobs = jobs.clone();
+            let error = Arc::clone(&error);
             let format_options = Options {
                 indent: self.pretty,
                 trim_whitespace: self.space,
@@ -101,13 +110,21 @@ impl Optimise {
                         Ok(())
                     },
                 );
+                if matches!(result, Err(_) | Ok(Err(_))) {
+                    error.store(true, Ordering::Relaxed);
+                }
                 match result {
                     Err(err) => eprintln!("{err}"),
                     Ok(Err(err)) => eprintln!("{err}"),
                     Ok(Ok(())) => {}
                 }
             })
-        })
+        })?;
+        if error.load(Ordering::Relaxed) {
+            Err(anyhow!("Failed to optimise all documents!"))
+        } else {
+            Ok(())
+        }
     }
 
     fn handle_config(&self, config: Config) -> anyhow::Result<Option<Config>> {
-- 
2.43.0


From 082e96ad6390fe2116f5cf6121a89b5201539231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:22 +0000
Subject: [PATCH 04/39] fix: exit with an error when actions fail on a document

---
 crates/oxvg/src/commands/action.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg/src/commands/action.rs b/crates/oxvg/src/commands/action.rs
index 9473dec..0e8d601 100644
--- a/crates/oxvg/src/commands/action.rs
+++ b/crates/oxvg/src/commands/action.rs
@@ -132,7 +132,7 @@ impl RunCommand for ActionRun {
             Err(err) => return future::ready(Err(err)),
         };
         let error = Arc::new(AtomicBool::new(false));
-        future::ready(self.walk.run(|| {
+        if let Err(err) = self.walk.run(|| {
             let actions = actions.clone();
             let error = Arc::clone(&error);
             let format_options = Options {
@@ -177,7 +177,14 @@ impl RunCommand for ActionRun {
                     Ok(Ok(())) => {}
                 }
             })
-        }))
+        }) {
+            return future::ready(Err(err));
+        }
+        future::ready(if error.load(Ordering::Relaxed) {
+            Err(anyhow::anyhow!("Failed to run actions on all documents!"))
+        } else {
+            Ok(())
+        })
     }
 }
 
-- 
2.43.0


From 4bb11b471d158ab4475adb98c296c7b7174f9305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:49 +0000
Subject: [PATCH 05/39] fix: exit with an error when linting finds problems at
 the given level

The level option had no effect, documents that could not be parsed or
reported did not affect the exit status either.
---
 crates/oxvg/src/commands/lint.rs | 38 +++++++++++++++++++++++++++-----
 crates/oxvg_lint/src/parse.rs    | 12 +++++++---
 2 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/crates/oxvg/src/commands/lint.rs b/crates/oxvg/src/commands/lint.rs
index 650aed0..a431557 100644
--- a/crates/oxvg/src/commands/lint.rs
+++ b/crates/oxvg/src/commands/lint.rs
@@ -1,5 +1,13 @@
-use std::{future, path::PathBuf};
+use std::{
+    future,
+    path::PathBuf,
+    sync::{
+        Arc,
+        atomic::{AtomicBool, Ordering},
+    },
+};
 
+use anyhow::anyhow;
 use clap::Subcommand;
 use oxvg_lint::{Rules, Severity, error::LintingError};
 
@@ -26,17 +34,35 @@ impl RunCommand for Check {
 impl Check {
     fn walk(mut self, rules: &Rules) -> anyhow::Result<()> {
         self.walk.output = None;
+        let level = self.level;
+        let error = Arc::new(AtomicBool::new(false));
         self.walk.run(|| {
             let rules = rules.clone();
+            let error = Arc::clone(&error);
             Box::new(move |source, path, _| {
                 let result = rules.lint_with_path(source, path);
-                match result {
-                    Err(LintingError::Reported { .. }) => {}
-                    Err(err) => eprintln!("{err}"),
-                    _ => {}
+                let failed = match result {
+                    Ok(()) => false,
+                    Err(LintingError::Reported { errors, warnings }) => match level {
+                        Severity::Off => false,
+                        Severity::Warn => errors > 0 || warnings > 0,
+                        Severity::Error => errors > 0,
+                    },
+                    Err(err) => {
+                        eprintln!("{err}");
+                        true
+                    }
+                };
+                if failed {
+                    error.store(true, Ordering::Relaxed);
                 }
             })
-        })
+        })?;
+        if error.load(Ordering::Relaxed) {
+            Err(anyhow!("Problems were found in the documents!"))
+        } else {
+            Ok(())
+        }
     }
 }
 
diff --git a/crates/oxvg_lint/src/parse.rs b/crates/oxvg_lint/src/parse.rs
index 526145a..3ed4cee 100644
--- a/crates/oxvg_lint/src/parse.rs
+++ b/crates/oxvg_lint/src/parse.rs
@@ -64,7 +64,9 @@ impl Rules {
     pub fn lint(&self, source: &str) -> Result<(), LintingError> {
         let lock = std::io::stdout().lock();
         let mut stdout = StdoutWriter { lock };
-        self.lint_to(&mut stdout, source)
+        let result = self.lint_to(&mut stdout, source);
+        stdout.lock.flush().map_err(LintingError::IO)?;
+        result
     }
 
     /// Analyses the file and reports any problems to the given writer
@@ -105,7 +107,9 @@ impl Rules {
         let file = std::fs::read_to_string(path).map_err(LintingError::IO)?;
         let lock = std::io::stdout().lock();
         let mut stdout = StdoutWriter { lock };
-        self.lint_internal(&mut stdout, Some(path), &file)
+        let result = self.lint_internal(&mut stdout, Some(path), &file);
+        stdout.lock.flush().map_err(LintingError::IO)?;
+        result
     }
 
     /// Loads and analyses the file, reporting any problems to standard output
@@ -116,7 +120,9 @@ impl Rules {
     pub fn lint_with_path(&self, source: &str, path: Option<&PathBuf>) -> Result<(), LintingError> {
         let lock = std::io::stdout().lock();
         let mut stdout = StdoutWriter { lock };
-        self.lint_internal(&mut stdout, path, source)
+        let result = self.lint_internal(&mut stdout, path, source);
+        stdout.lock.flush().map_err(LintingError::IO)?;
+        result
     }
 
     /// Loads and analyses the file, reporting any problems to the given writer
-- 
2.43.0


From 622eab16edd4cd52556f45ac48055b55e292254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:30 +0000
Subject: [PATCH 06/39] fix: write each component completely or not at all

Errors while flushing a component were dropped, and a failed
transformation left a truncated file behind.
---
 crates/oxvg/src/commands/jsx.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/oxvg/src/commands/jsx.rs b/crates/oxvg/src/commands/jsx.rs
index 5fe0074..60d8b3a 100644
--- a/crates/oxvg/src/commands/jsx.rs
+++ b/crates/oxvg/src/commands/jsx.rs
@@ -38,7 +38,7 @@ use swc_ecma_lexer::{Lexer, Parser, StringInput, Syntax};
 use crate::{
     args::RunCommand,
     config::{self, Config},
-    walk::Walk,
+    walk::{Walk, write_file, write_stdout},
 };
 
 macro_rules! declare_template {
@@ -312,8 +312,7 @@ impl RunCommand for JSX {
                                 }
                                 let component_name = state.component_name.clone();
                                 let template = declare_template!(template_ast);
-                                let file = std::fs::File::create(&output)?;
-                                let mut buf = std::io::BufWriter::new(file);
+                                let mut buf = Vec::new();
                                 transform(
                                     code,
                                     allocator,
@@ -323,6 +322,7 @@ impl RunCommand for JSX {
                                     &mut buf,
                                 )
                                 .map_err(|err| anyhow::Error::msg(err.to_string()))?;
+                                write_file(&output, &buf)?;
                                 count.update(Ordering::Relaxed, Ordering::Relaxed, |n| n + 1);
                                 append_to_index_js(
                                     &output,
@@ -332,15 +332,17 @@ impl RunCommand for JSX {
                                 )
                             } else {
                                 let template = declare_template!(template_ast);
+                                let mut buf = Vec::new();
                                 transform(
                                     code,
                                     allocator,
                                     Some(jsx_config),
                                     Some(state),
                                     template,
-                                    &mut std::io::stdout(),
+                                    &mut buf,
                                 )
-                                .map_err(|err| anyhow::Error::msg(err.to_string()))
+                                .map_err(|err| anyhow::Error::msg(err.to_string()))?;
+                                Ok(write_stdout(&buf)?)
                             }
                         },
                     );
-- 
2.43.0


From dbd57b2b46bfc9f419cb40bd683c3b444be9e797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:17 +0000
Subject: [PATCH 07/39] fix: write each index of components once, after all of
 its components

Exports were appended to the index by every thread, so that interrupted or
repeated runs left torn and duplicate lines, and `--no-index` was ignored.
---
 crates/oxvg/src/commands/jsx.rs | 76 ++++++++++++++++++++++-----------
 1 file changed, 50 insertions(+), 26 deletions(-)

diff --git a/crates/oxvg/src/commands/jsx.rs b/crates/oxvg/src/commands/jsx.rs
index 60d8b3a..af95d12 100644
--- a/crates/oxvg/src/commands/jsx.rs
+++ b/crates/oxvg/src/commands/jsx.rs
@@ -1,11 +1,12 @@
 use std::{
+    collections::{BTreeMap, BTreeSet},
     ffi::OsStr,
     future,
-    io::Write as _,
+    io::ErrorKind,
     marker::PhantomData,
     path::{Path, PathBuf},
     sync::{
-        Arc,
+        Arc, Mutex, PoisonError,
         atomic::{AtomicBool, AtomicUsize, Ordering},
     },
 };
@@ -267,18 +268,20 @@ impl RunCommand for JSX {
     fn run(self, config: Config) -> impl Future<Output = anyhow::Result<()>> + Send {
         let error = Arc::new(AtomicBool::new(false));
         let count = Arc::new(AtomicUsize::new(0));
+        let exports = Arc::new(Mutex::new(Exports::default()));
         let jsx_config = match resolve_config(self.config, &config) {
             Ok(jsx_config) => jsx_config,
             Err(err) => return future::ready(Err(err)),
         };
 
-        if let Err(err) = swc_core::common::GLOBALS.set(&swc_core::common::Globals::new(), || {
+        let result = swc_core::common::GLOBALS.set(&swc_core::common::Globals::new(), || {
             let template_string = self.template.map(std::fs::read_to_string).transpose()?;
             let template_ast = parse_template(template_string)?;
 
             self.walk.run(|| {
                 let error = Arc::clone(&error);
                 let count = Arc::clone(&count);
+                let exports = Arc::clone(&exports);
                 let jsx_config = jsx_config.clone();
                 let template_ast = template_ast.clone();
 
@@ -324,12 +327,14 @@ impl RunCommand for JSX {
                                 .map_err(|err| anyhow::Error::msg(err.to_string()))?;
                                 write_file(&output, &buf)?;
                                 count.update(Ordering::Relaxed, Ordering::Relaxed, |n| n + 1);
-                                append_to_index_js(
+                                add_to_exports(
+                                    &mut exports.lock().unwrap_or_else(PoisonError::into_inner),
                                     &output,
                                     typescript,
                                     export_type,
                                     &component_name,
-                                )
+                                );
+                                Ok(())
                             } else {
                                 let template = declare_template!(template_ast);
                                 let mut buf = Vec::new();
@@ -356,7 +361,17 @@ impl RunCommand for JSX {
                     }
                 })
             })
-        }) {
+        });
+        if !self.no_index {
+            let exports = exports.lock().unwrap_or_else(PoisonError::into_inner);
+            for (index, exports) in &*exports {
+                if let Err(err) = append_to_index_js(index, exports) {
+                    error.store(true, Ordering::Relaxed);
+                    eprintln!("{}: {err}", index.display());
+                }
+            }
+        }
+        if let Err(err) = result {
             return future::ready(Err(err));
         }
         future::ready(if error.load(Ordering::Relaxed) {
@@ -588,35 +603,44 @@ fn path_to_component_name(path: &OsStr) -> String {
         .collect()
 }
 
-fn append_to_index_js(
+/// The set of exports to write to each index file
+type Exports = BTreeMap<PathBuf, BTreeSet<String>>;
+
+fn add_to_exports(
+    exports: &mut Exports,
     output: &Path,
     typescript: bool,
     export_type: ExportType,
     component_name: &str,
-) -> anyhow::Result<()> {
+) {
     if let (Some(parent), Some(file_stem)) = (output.parent(), output.file_stem()) {
         let index = parent.join(if typescript { "index.ts" } else { "index.js" });
-        let file = std::fs::OpenOptions::new()
-            .append(true)
-            .create(true)
-            .open(index)?;
-        let mut buf = std::io::BufWriter::new(file);
-        match export_type {
+        let file_stem = file_stem.to_string_lossy();
+        exports.entry(index).or_default().insert(match export_type {
             ExportType::Named => {
-                writeln!(
-                    buf,
-                    r#"export {{ {component_name} }} from "./{}""#,
-                    file_stem.to_string_lossy()
-                )
+                format!(r#"export {{ {component_name} }} from "./{file_stem}""#)
             }
             ExportType::Default => {
-                writeln!(
-                    buf,
-                    r#"export {{ default as {component_name} }} from "./{}""#,
-                    file_stem.to_string_lossy()
-                )
+                format!(r#"export {{ default as {component_name} }} from "./{file_stem}""#)
             }
-        }?;
+        });
+    }
+}
+
+/// Adds the exports to the end of the index file, unless it already contains them
+fn append_to_index_js(index: &Path, exports: &BTreeSet<String>) -> std::io::Result<()> {
+    let mut content = match std::fs::read_to_string(index) {
+        Err(err) if err.kind() == ErrorKind::NotFound => String::new(),
+        result => result?,
+    };
+    if !content.is_empty() && !content.ends_with('\n') {
+        content.push('\n');
+    }
+    for export in exports {
+        if !content.lines().any(|line| line == export) {
+            content.push_str(export);
+            content.push('\n');
+        }
     }
-    Ok(())
+    write_file(index, content.as_bytes())
 }
-- 
2.43.0


From ead39b30bfb79533400b5f39766184dfcb9778ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:55 +0000
Subject: [PATCH 08/39] fix: name the document in errors

Errors for a document among many could not be told apart.
---
 crates/oxvg/src/commands/action.rs   | 6 +++---
 crates/oxvg/src/commands/format.rs   | 6 +++---
 crates/oxvg/src/commands/jsx.rs      | 6 +++---
 crates/oxvg/src/commands/lint.rs     | 8 ++++++--
 crates/oxvg/src/commands/optimise.rs | 6 +++---
 crates/oxvg/src/walk.rs              | 9 +++++++++
 6 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/crates/oxvg/src/commands/action.rs b/crates/oxvg/src/commands/action.rs
index 0e8d601..6319b83 100644
--- a/crates/oxvg/src/commands/action.rs
+++ b/crates/oxvg/src/commands/action.rs
@@ -20,7 +20,7 @@ use roxmltree::ParsingOptions;
 use crate::{
     args::RunCommand,
     config::Config,
-    walk::{Output, Walk},
+    walk::{Output, Walk, report},
 };
 
 #[derive(clap::Args, Debug)]
@@ -172,8 +172,8 @@ impl RunCommand for ActionRun {
                     error.store(true, Ordering::Relaxed);
                 }
                 match result {
-                    Err(err) => eprintln!("{err}"),
-                    Ok(Err(err)) => eprintln!("{err}"),
+                    Err(err) => report(path, &err),
+                    Ok(Err(err)) => report(path, &err),
                     Ok(Ok(())) => {}
                 }
             })
diff --git a/crates/oxvg/src/commands/format.rs b/crates/oxvg/src/commands/format.rs
index b0e088f..1ecc61f 100644
--- a/crates/oxvg/src/commands/format.rs
+++ b/crates/oxvg/src/commands/format.rs
@@ -15,7 +15,7 @@ use roxmltree::ParsingOptions;
 use crate::{
     args::RunCommand,
     config::Config,
-    walk::{Output, Walk},
+    walk::{Output, Walk, report},
 };
 
 #[derive(clap::Args, Debug)]
@@ -67,8 +67,8 @@ impl RunCommand for Format {
                     error.store(true, Ordering::Relaxed);
                 }
                 match result {
-                    Err(err) => eprintln!("{err}"),
-                    Ok(Err(err)) => eprintln!("{err}"),
+                    Err(err) => report(path, &err),
+                    Ok(Err(err)) => report(path, &err),
                     Ok(Ok(())) => {}
                 }
             })
diff --git a/crates/oxvg/src/commands/jsx.rs b/crates/oxvg/src/commands/jsx.rs
index af95d12..49e0c1a 100644
--- a/crates/oxvg/src/commands/jsx.rs
+++ b/crates/oxvg/src/commands/jsx.rs
@@ -39,7 +39,7 @@ use swc_ecma_lexer::{Lexer, Parser, StringInput, Syntax};
 use crate::{
     args::RunCommand,
     config::{self, Config},
-    walk::{Walk, write_file, write_stdout},
+    walk::{Walk, report, write_file, write_stdout},
 };
 
 macro_rules! declare_template {
@@ -355,8 +355,8 @@ impl RunCommand for JSX {
                         error.store(true, Ordering::Relaxed);
                     }
                     match result {
-                        Err(err) => eprintln!("{path:?}: {err}"),
-                        Ok(Err(err)) => eprintln!("{err}"),
+                        Err(err) => report(path, &err),
+                        Ok(Err(err)) => report(path, &err),
                         Ok(Ok(())) => {}
                     }
                 })
diff --git a/crates/oxvg/src/commands/lint.rs b/crates/oxvg/src/commands/lint.rs
index a431557..adedf06 100644
--- a/crates/oxvg/src/commands/lint.rs
+++ b/crates/oxvg/src/commands/lint.rs
@@ -11,7 +11,11 @@ use anyhow::anyhow;
 use clap::Subcommand;
 use oxvg_lint::{Rules, Severity, error::LintingError};
 
-use crate::{args::RunCommand, config::Config, walk::Walk};
+use crate::{
+    args::RunCommand,
+    config::Config,
+    walk::{Walk, report},
+};
 
 mod lsp;
 
@@ -49,7 +53,7 @@ impl Check {
                         Severity::Error => errors > 0,
                     },
                     Err(err) => {
-                        eprintln!("{err}");
+                        report(path, &err);
                         true
                     }
                 };
diff --git a/crates/oxvg/src/commands/optimise.rs b/crates/oxvg/src/commands/optimise.rs
index 68caf2e..679d759 100644
--- a/crates/oxvg/src/commands/optimise.rs
+++ b/crates/oxvg/src/commands/optimise.rs
@@ -19,7 +19,7 @@ use roxmltree::ParsingOptions;
 use crate::{
     args::RunCommand,
     config::{self, Config},
-    walk::{Output, Walk},
+    walk::{Output, Walk, report},
 };
 
 #[derive(clap::Args, Debug)]
@@ -114,8 +114,8 @@ impl Optimise {
                     error.store(true, Ordering::Relaxed);
                 }
                 match result {
-                    Err(err) => eprintln!("{err}"),
-                    Ok(Err(err)) => eprintln!("{err}"),
+                    Err(err) => report(path, &err),
+                    Ok(Err(err)) => report(path, &err),
                     Ok(Ok(())) => {}
                 }
             })
diff --git a/crates/oxvg/src/walk.rs b/crates/oxvg/src/walk.rs
index 1f8e243..d5b61c8 100644
--- a/crates/oxvg/src/walk.rs
+++ b/crates/oxvg/src/walk.rs
@@ -94,6 +94,15 @@ impl Output<'_, '_, '_> {
     }
 }
 
+/// Reports an error for the document at the path
+pub(crate) fn report(path: Option<&PathBuf>, err: &dyn std::fmt::Display) {
+    if let Some(path) = path {
+        eprintln!("{}: {err}", path.display());
+    } else {
+        eprintln!("{err}");
+    }
+}
+
 /// Writes the whole of a document to standard output, without it being interleaved with the
 /// documents of other threads.
 pub(crate) fn write_stdout(content: &[u8]) -> std::io::Result<()> {
-- 
2.43.0


From 38c99a109f0b3db909a0b1188b7de14dcc94e34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:12 +0000
Subject: [PATCH 09/39] fix: report unused ids and namespaces in a stable order

They were reported in the order of a randomly seeded hash map, so that
the report of the same document differed between runs.
---
 crates/oxvg_lint/src/rules/no_unused_ids.rs   | 7 +++++++
 crates/oxvg_lint/src/rules/no_unused_xmlns.rs | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/crates/oxvg_lint/src/rules/no_unused_ids.rs b/crates/oxvg_lint/src/rules/no_unused_ids.rs
index 4eea702..e12920f 100644
--- a/crates/oxvg_lint/src/rules/no_unused_ids.rs
+++ b/crates/oxvg_lint/src/rules/no_unused_ids.rs
@@ -14,6 +14,7 @@ pub fn no_unused_ids<'a, 'input>(
     referenced_ids: &'a HashSet<String>,
     severity: Severity,
 ) {
+    let start = reports.len();
     reports.par_extend(ids.par_iter().filter_map(move |(id, ranges)| {
         if referenced_ids.contains(id.as_str()) {
             None
@@ -26,6 +27,12 @@ pub fn no_unused_ids<'a, 'input>(
             })
         }
     }));
+    reports[start..].sort_by_cached_key(|error| {
+        (
+            error.range.as_ref().map(|range| range.start),
+            error.problem.to_string(),
+        )
+    });
 }
 
 #[cfg(test)]
diff --git a/crates/oxvg_lint/src/rules/no_unused_xmlns.rs b/crates/oxvg_lint/src/rules/no_unused_xmlns.rs
index c4b1d51..9227b9b 100644
--- a/crates/oxvg_lint/src/rules/no_unused_xmlns.rs
+++ b/crates/oxvg_lint/src/rules/no_unused_xmlns.rs
@@ -14,6 +14,7 @@ pub fn no_unused_xmlns<'input>(
     severity: Severity,
 ) {
     let range = range.map(|r| r.start..r.start);
+    let start = reports.len();
     reports.par_extend(
         xmlns_set
             .par_drain()
@@ -30,6 +31,7 @@ pub fn no_unused_xmlns<'input>(
                 }
             }),
     );
+    reports[start..].sort_by_cached_key(|error| error.problem.to_string());
 }
 
 #[cfg(test)]
-- 
2.43.0


From f694478b247a30bc5f9f9e6d7bf384b2188dc4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:30 +0000
Subject: [PATCH 10/39] fix: clear diagnostics of documents without problems

The server published nothing for a document once its problems were
resolved, or when it could not be parsed, so that an editor kept showing
the problems of an earlier version.
---
 crates/oxvg/src/commands/lint/lsp.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg/src/commands/lint/lsp.rs b/crates/oxvg/src/commands/lint/lsp.rs
index 74e4fbc..4c59b44 100644
--- a/crates/oxvg/src/commands/lint/lsp.rs
+++ b/crates/oxvg/src/commands/lint/lsp.rs
@@ -84,15 +84,23 @@ impl Backend {
 
     async fn lint(&self, uri: &Uri, source: &str) {
         let uri = uri.clone();
-        let Ok(Err(diagnostics)) = parse_with_options(
+        // An empty list is published as well, to clear what was published for a previous version
+        let diagnostics = match parse_with_options(
             source,
             ParsingOptions {
                 allow_dtd: true,
                 ..ParsingOptions::default()
             },
             |dom, allocator| self.analyse(dom, allocator, source, &uri),
-        ) else {
-            return;
+        ) {
+            Ok(Ok(())) => vec![],
+            Ok(Err(diagnostics)) => diagnostics,
+            Err(err) => vec![Diagnostic {
+                severity: Some(DiagnosticSeverity::ERROR),
+                source: Some(NAME.into()),
+                message: err.to_string(),
+                ..Diagnostic::default()
+            }],
         };
 
         let result = PublishDiagnosticsParams {
-- 
2.43.0


From c7221ccf5b05eb0b07d7ce8d6ecbbfe0f8b74237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:47 +0000
Subject: [PATCH 11/39] fix: write to the input when the output is given
 without a value

The documents were printed to standard output instead.
---
 crates/oxvg/src/walk.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg/src/walk.rs b/crates/oxvg/src/walk.rs
index d5b61c8..c72e423 100644
--- a/crates/oxvg/src/walk.rs
+++ b/crates/oxvg/src/walk.rs
@@ -195,9 +195,12 @@ impl Walk {
 
     fn handle_path<F: Fn() -> FnVisitor>(&self, path: &PathBuf, f: F, error: &AtomicBool) {
         let output_path = |input: &PathBuf| {
-            let Some(output) = self.output.as_ref().and_then(|output| output.first()) else {
+            let Some(output) = &self.output else {
                 return Ok(None);
             };
+            let Some(output) = output.first() else {
+                return Ok(Some(input.clone()));
+            };
             input.strip_prefix(path).map(|p| {
                 Some(if p.as_os_str().is_empty() {
                     output.clone()
-- 
2.43.0


From 7a6bb2f3f37a77655dd2cd73a5b3a20a8a6d1951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:27 +0000
Subject: [PATCH 12/39] fix: refuse to run when the configuration cannot be
 read

Any error while reading the configuration was treated as if there was
none, silently running with the defaults instead.
---
 crates/oxvg/src/config.rs | 17 ++++++++++++++---
 crates/oxvg/src/main.rs   |  6 +++++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/crates/oxvg/src/config.rs b/crates/oxvg/src/config.rs
index 9ea1f34..166a07e 100644
--- a/crates/oxvg/src/config.rs
+++ b/crates/oxvg/src/config.rs
@@ -1,5 +1,5 @@
 //! Types for the configuration file usable by OXVG
-use std::{env::current_dir, fs::read_to_string, path::PathBuf};
+use std::{env::current_dir, fs::read_to_string, io::ErrorKind, path::PathBuf};
 
 use etcetera::{choose_base_strategy, BaseStrategy};
 use oxvg_lint::Rules;
@@ -45,15 +45,26 @@ impl Config {
         Ok((read_to_string(&path)?, path))
     }
 
+    /// Whether the error is for a config which doesn't exist, as opposed to one which cannot be read
+    pub fn is_missing(err: &std::io::Error) -> bool {
+        matches!(
+            err.kind(),
+            ErrorKind::NotFound | ErrorKind::NotADirectory
+        )
+    }
+
     /// Tries loading the configuration from well-known paths
     ///
     /// # Errors
-    /// When the config is missing
+    /// When the config is missing or cannot be read
     ///
     /// # Panics
     /// When the config exists but cannot be parsed
     pub fn load() -> std::io::Result<Self> {
-        let (file, path) = Self::load_local().or_else(|_| Self::load_base())?;
+        let (file, path) = match Self::load_local() {
+            Err(err) if Self::is_missing(&err) => Self::load_base(),
+            result => result,
+        }?;
         Ok(serde_json::from_str(&file).unwrap_or_else(|err| {
             panic!(
                 "Configuration at {} cannot be parsed: {err}",
diff --git a/crates/oxvg/src/main.rs b/crates/oxvg/src/main.rs
index dc57141..128f3d2 100644
--- a/crates/oxvg/src/main.rs
+++ b/crates/oxvg/src/main.rs
@@ -1,5 +1,6 @@
 //! Oxvg is a toolchain for transforming, optimising, and linting SVG documents.
 
+use anyhow::Context as _;
 use clap::Parser;
 use oxvg::{
     args::{Args, Command, RunCommand},
@@ -10,7 +11,10 @@ use oxvg::{
 #[tokio::main]
 async fn main() -> anyhow::Result<()> {
     let args = Args::parse();
-    let config = Config::load().unwrap_or_default();
+    let config = match Config::load() {
+        Err(err) if Config::is_missing(&err) => Config::default(),
+        result => result.context("Configuration cannot be read")?,
+    };
 
     match args.command {
         Command::Optimise(args) => args.run(config).await,
-- 
2.43.0


From 1bfb0c3dc4855eda4d23622016e209125f2f7dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:36 +0000
Subject: [PATCH 13/39] fix: use the config given for linting and jsx

The option was accepted but the inferred config was used regardless.
---
 crates/oxvg/src/commands/jsx.rs      | 16 ++++++++++++++--
 crates/oxvg/src/commands/lint.rs     | 15 +++++++++++++--
 crates/oxvg/src/commands/optimise.rs |  5 +----
 crates/oxvg/src/config.rs            | 11 ++++++++++-
 4 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/crates/oxvg/src/commands/jsx.rs b/crates/oxvg/src/commands/jsx.rs
index 49e0c1a..f1cd316 100644
--- a/crates/oxvg/src/commands/jsx.rs
+++ b/crates/oxvg/src/commands/jsx.rs
@@ -19,7 +19,7 @@ use oxvg_jsx::{
     error::{ConfigError, TemplateError},
     transform,
 };
-use oxvg_optimiser::Extends;
+use oxvg_optimiser::{Extends, Jobs};
 
 use roxmltree::ParsingOptions;
 use swc_core::{
@@ -265,10 +265,22 @@ impl TryInto<oxvg_jsx::Config> for JSXConfig {
 impl JSX {}
 
 impl RunCommand for JSX {
-    fn run(self, config: Config) -> impl Future<Output = anyhow::Result<()>> + Send {
+    fn run(self, mut config: Config) -> impl Future<Output = anyhow::Result<()>> + Send {
         let error = Arc::new(AtomicBool::new(false));
         let count = Arc::new(AtomicUsize::new(0));
         let exports = Arc::new(Mutex::new(Exports::default()));
+        if let Some(path) = self.config_file.as_ref().and_then(|paths| paths.first()) {
+            config = match Config::load_from(path) {
+                Ok(config) => config,
+                Err(err) => return future::ready(Err(err)),
+            };
+        } else if let Some(extends) = self.extends {
+            config.optimise = Some(config::Optimise {
+                extends: Some(extends),
+                jobs: Jobs::none(),
+                omit: None,
+            });
+        }
         let jsx_config = match resolve_config(self.config, &config) {
             Ok(jsx_config) => jsx_config,
             Err(err) => return future::ready(Err(err)),
diff --git a/crates/oxvg/src/commands/lint.rs b/crates/oxvg/src/commands/lint.rs
index adedf06..f2b89eb 100644
--- a/crates/oxvg/src/commands/lint.rs
+++ b/crates/oxvg/src/commands/lint.rs
@@ -32,7 +32,9 @@ pub struct Check {
 }
 impl RunCommand for Check {
     fn run(self, config: Config) -> impl Future<Output = anyhow::Result<()>> + Send {
-        future::ready(self.walk(&config.lint.unwrap_or_else(Rules::recommended)))
+        future::ready(
+            resolve_rules(self.config.as_deref(), config).and_then(|rules| self.walk(&rules)),
+        )
     }
 }
 impl Check {
@@ -78,11 +80,20 @@ pub struct Serve {
 }
 impl RunCommand for Serve {
     async fn run(self, config: Config) -> anyhow::Result<()> {
-        lsp::serve(config.lint.unwrap_or_else(Rules::recommended)).await;
+        lsp::serve(resolve_rules(self.config.as_deref(), config)?).await;
         Ok(())
     }
 }
 
+/// Gets the rules from the specified config, otherwise from the inferred config
+fn resolve_rules(paths: Option<&[PathBuf]>, inferred: Config) -> anyhow::Result<Rules> {
+    let config = match paths.and_then(|paths| paths.first()) {
+        Some(path) => Config::load_from(path)?,
+        None => inferred,
+    };
+    Ok(config.lint.unwrap_or_else(Rules::recommended))
+}
+
 #[derive(Subcommand)]
 /// Run analysis against input files and reports any problems that it may detect.
 pub enum Lint {
diff --git a/crates/oxvg/src/commands/optimise.rs b/crates/oxvg/src/commands/optimise.rs
index 679d759..e2ecc21 100644
--- a/crates/oxvg/src/commands/optimise.rs
+++ b/crates/oxvg/src/commands/optimise.rs
@@ -131,10 +131,7 @@ impl Optimise {
         if let Some(config_paths) = &self.config {
             if let Some(config_path) = config_paths.first() {
                 log::debug!("using specified config");
-                let file = std::fs::File::open(config_path)?;
-                serde_json::from_reader(file)
-                    .map_err(|e| anyhow!(e))
-                    .map(Some)
+                Config::load_from(config_path).map(Some)
             } else {
                 log::debug!("printing config");
                 serde_json::to_writer(
diff --git a/crates/oxvg/src/config.rs b/crates/oxvg/src/config.rs
index 166a07e..4dab3e8 100644
--- a/crates/oxvg/src/config.rs
+++ b/crates/oxvg/src/config.rs
@@ -1,5 +1,5 @@
 //! Types for the configuration file usable by OXVG
-use std::{env::current_dir, fs::read_to_string, io::ErrorKind, path::PathBuf};
+use std::{env::current_dir, fs::read_to_string, io::ErrorKind, path::{Path, PathBuf}};
 
 use etcetera::{choose_base_strategy, BaseStrategy};
 use oxvg_lint::Rules;
@@ -45,6 +45,15 @@ impl Config {
         Ok((read_to_string(&path)?, path))
     }
 
+    /// Loads the configuration from the specified path
+    ///
+    /// # Errors
+    /// When the config cannot be read or parsed
+    pub fn load_from(path: &Path) -> anyhow::Result<Self> {
+        let file = std::fs::File::open(path)?;
+        Ok(serde_json::from_reader(file)?)
+    }
+
     /// Whether the error is for a config which doesn't exist, as opposed to one which cannot be read
     pub fn is_missing(err: &std::io::Error) -> bool {
         matches!(
-- 
2.43.0


From 4a3f5c42fffea6debfa1b853228e4d33e757a4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 14/39] fix: keep the state of a document when it is resumed

The state was removed from the document when an actor was created and was
only added back by actions changing the selection, so that running any
other action on a saved document lost its selection and history.
---
 crates/oxvg_actions/src/state.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/oxvg_actions/src/state.rs b/crates/oxvg_actions/src/state.rs
index a181c5e..7bc3cdf 100644
--- a/crates/oxvg_actions/src/state.rs
+++ b/crates/oxvg_actions/src/state.rs
@@ -73,7 +73,7 @@ pub(crate) enum StateElement {
 }
 
 impl<'input, 'arena> State<'input, 'arena> {
-    /// Creates a state from the given document by removing the `oxvg:state` element and using it's data
+    /// Creates a state from the given document using the data of it's `oxvg:state` element
     pub fn debed(
         root: Ref<'input, 'arena>,
         allocator: &Allocator<'input, 'arena>,
@@ -94,7 +94,6 @@ impl<'input, 'arena> State<'input, 'arena> {
             selection: None,
         };
 
-        state_element.remove();
         for element in state_element.children_iter() {
             state.debed_field(element)?;
         }
-- 
2.43.0


From c0c8adbb098efded0b986d1eb68c5069e29b701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 15/39] fix: read inserted elements from the history

The state of a document could not be derived after inserting an element.
---
 crates/oxvg_actions/src/state.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/oxvg_actions/src/state.rs b/crates/oxvg_actions/src/state.rs
index 7bc3cdf..b75e4bc 100644
--- a/crates/oxvg_actions/src/state.rs
+++ b/crates/oxvg_actions/src/state.rs
@@ -373,6 +373,12 @@ impl<'input> Action<'input> {
                 };
                 Ok(Self::SkewY(y))
             }
+            Self::INSERT => {
+                let Some(name) = args.next().transpose()? else {
+                    return Err(Error::MissingStateAttribute(Self::ARG));
+                };
+                Ok(Self::Insert(name))
+            }
             Self::FORGET => Ok(Self::Forget),
             Self::SELECT => {
                 let Some(string) = args.next().transpose()? else {
-- 
2.43.0


From a37e5d7364bdc4c36f311ae3f538470aed336bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 16/39] fix: embed selections made after deselecting

The selection was added to an element that had been removed from the
document by the earlier deselection.
---
 crates/oxvg_actions/src/effects.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/oxvg_actions/src/effects.rs b/crates/oxvg_actions/src/effects.rs
index b45badd..b045866 100644
--- a/crates/oxvg_actions/src/effects.rs
+++ b/crates/oxvg_actions/src/effects.rs
@@ -63,6 +63,7 @@ impl<'input> Actor<'input, '_> {
         if selections.list.is_empty() {
             state_selections.remove_attribute(&create_oxvg_attr_id(StateElement::SELECTION_IDS));
             state_selections.remove();
+            self.state.selection = None;
             return Ok(());
         }
 
-- 
2.43.0


From 0545479b960dfd1b73d6130e67fcd1feeb386f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:23 +0000
Subject: [PATCH 17/39] fix: keep going when progress cannot be printed

Printing the progress of a document panicked when standard output was
closed, which abandoned the remaining documents.
---
 crates/oxvg/src/walk.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg/src/walk.rs b/crates/oxvg/src/walk.rs
index c72e423..8d6fa56 100644
--- a/crates/oxvg/src/walk.rs
+++ b/crates/oxvg/src/walk.rs
@@ -82,9 +82,10 @@ impl Output<'_, '_, '_> {
                 let increased = if change < 0.0 { "\x1b[31m" } else { "" };
                 let path = self.input.and_then(|p| p.to_str()).unwrap_or("");
                 if !self.quiet {
-                    println!(
+                    writeln!(
+                        std::io::stdout(),
                         "\n\n\x1b[32m{path:?} ({input_kb:.1}KB) -> {output:?} ({output_kb:.1}KB) {increased}({change:.2}%)\x1b[0m"
-                    );
+                    )?;
                 }
             }
         } else {
-- 
2.43.0


From ea37080241dcc87e18f5c4f9ddc9f83ebbcbd1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:23 +0000
Subject: [PATCH 18/39] fix: apply props and replacements of components in a
 stable order

The order followed the map's hasher, so the same command gave different
components between runs.
---
 crates/oxvg_jsx/src/swc/preset.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_jsx/src/swc/preset.rs b/crates/oxvg_jsx/src/swc/preset.rs
index c0ef524..c9b2002 100644
--- a/crates/oxvg_jsx/src/swc/preset.rs
+++ b/crates/oxvg_jsx/src/swc/preset.rs
@@ -1,5 +1,5 @@
 //! A reimplementation of `@svgr/babel-preset` and it's `@svgr` dependencies in Rust.
-use std::collections::HashSet;
+use std::collections::{BTreeMap, HashMap, HashSet};
 
 use swc_core::{
     common::{BytePos, DUMMY_SP},
@@ -38,7 +38,7 @@ pub fn preset<'a, S: std::hash::BuildHasher>(
         .map_err(Error::BuildError)?;
 
     if let Some(svg_props) = &config.svg_props {
-        for (key, value) in svg_props {
+        for (key, value) in sorted(svg_props) {
             let attr = parse_templatable_attr(value).map_err(Error::ConfigError)?;
             set_attribute(svg_element, key, attr, true);
         }
@@ -145,7 +145,7 @@ pub fn preset<'a, S: std::hash::BuildHasher>(
     }
 
     if let Some(replace_attr_values) = &config.replace_attr_values {
-        for (key, value) in replace_attr_values {
+        for (key, value) in sorted(replace_attr_values) {
             let attr = parse_templatable_attr(value).map_err(Error::ConfigError)?;
             set_value_recursive(jsx, key, &attr);
         }
@@ -166,6 +166,12 @@ pub fn preset<'a, S: std::hash::BuildHasher>(
     Ok(())
 }
 
+/// The entries of a map in the order of their keys, so that the output doesn't depend on the
+/// map's hasher.
+fn sorted(map: &HashMap<String, String>) -> BTreeMap<&String, &String> {
+    map.iter().collect()
+}
+
 #[allow(clippy::too_many_lines)]
 fn replace_element_conditionally(
     jsx: &mut JSXElementChild,
-- 
2.43.0


From dccfa2689f5fe7707fed49f19f4924ef386271bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:23 +0000
Subject: [PATCH 19/39] fix: skip style attributes that cannot be parsed when
 minifying

The document made the process panic, which abandoned the other documents
of the batch.
---
 crates/oxvg_optimiser/src/jobs/minify_styles.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/minify_styles.rs b/crates/oxvg_optimiser/src/jobs/minify_styles.rs
index 73deda8..91e211a 100644
--- a/crates/oxvg_optimiser/src/jobs/minify_styles.rs
+++ b/crates/oxvg_optimiser/src/jobs/minify_styles.rs
@@ -183,8 +183,10 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
         }
 
         for element_with_style in self.elements_with_style.borrow().values() {
-            let mut style_sheet =
-                get_attribute_mut!(element_with_style, Style).expect("element without style used");
+            let Some(mut style_sheet) = get_attribute_mut!(element_with_style, Style) else {
+                // The attribute couldn't be parsed as a list of declarations
+                continue;
+            };
 
             minify_style::style(&mut style_sheet.0);
             if style_sheet.0.is_empty() {
-- 
2.43.0


From 14fdb05b0b9ab52584068ba534be8ee31de707b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:10 +0000
Subject: [PATCH 20/39] fix: import native elements in a stable order

---
 crates/oxvg_jsx/src/swc/get_variables.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_jsx/src/swc/get_variables.rs b/crates/oxvg_jsx/src/swc/get_variables.rs
index e77311c..c13712d 100644
--- a/crates/oxvg_jsx/src/swc/get_variables.rs
+++ b/crates/oxvg_jsx/src/swc/get_variables.rs
@@ -87,7 +87,10 @@ impl Variables {
                     is_type_only: false,
                 }));
             }
-            specifiers.extend(opts.native_idents.iter().filter(|i| **i != "Svg").map(|i| {
+            let mut native_idents: Vec<_> =
+                opts.native_idents.iter().filter(|i| **i != "Svg").collect();
+            native_idents.sort_unstable();
+            specifiers.extend(native_idents.into_iter().map(|i| {
                 ImportSpecifier::Named(ImportNamedSpecifier {
                     span: DUMMY_SP,
                     local: i.as_str().into(),
-- 
2.43.0


From f47fa9b0dbc62b94c597ece87a85f1ad5750d972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:10 +0000
Subject: [PATCH 21/39] fix: keep the state last when elements are inserted
 into the root

---
 crates/oxvg_actions/src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_actions/src/state.rs b/crates/oxvg_actions/src/state.rs
index b75e4bc..86f9f32 100644
--- a/crates/oxvg_actions/src/state.rs
+++ b/crates/oxvg_actions/src/state.rs
@@ -118,7 +118,7 @@ impl<'input, 'arena> State<'input, 'arena> {
                     }),
                     value: OXVG_XMLNS.into(),
                 });
-                element.append_child(*self.state);
+                element.append(*self.state);
             }
         } else {
             element.set_attribute(Attr::Unparsed {
-- 
2.43.0


From 8cf16ff8d8c19f4ee6db053dc9dbdf54e7dc758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:02 +0000
Subject: [PATCH 22/39] fix: attach the content of style elements once

---
 crates/oxvg_ast/src/parse/roxmltree.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/oxvg_ast/src/parse/roxmltree.rs b/crates/oxvg_ast/src/parse/roxmltree.rs
index 81341af..986d2dc 100644
--- a/crates/oxvg_ast/src/parse/roxmltree.rs
+++ b/crates/oxvg_ast/src/parse/roxmltree.rs
@@ -206,8 +206,7 @@ fn parse_xml_node<'a, 'input: 'a, 'arena>(
         roxmltree::NodeType::PI => parse_pi(allocator, node.pi().unwrap()),
         roxmltree::NodeType::Element => {
             let (child, style) = parse_element(allocator, node, namespace_map, &mut popped_ns);
-            if let Some(style) = style {
-                attach_child(child, style);
+            if style.is_some() {
                 return Ok(child);
             }
             child
-- 
2.43.0


From f8b64389b6cf6529d62268fae3c114a0879bf5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:57 +0000
Subject: [PATCH 23/39] fix: step over whole characters when parsing values
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

An attribute value starting with a character outside ASCII, such as
fill="é", made the parser stop inside the character and panic. This ended
the language server and abandoned the documents of a batch.
---
 crates/oxvg_parse/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/oxvg_parse/src/lib.rs b/crates/oxvg_parse/src/lib.rs
index 7dfda4d..b300b51 100644
--- a/crates/oxvg_parse/src/lib.rs
+++ b/crates/oxvg_parse/src/lib.rs
@@ -40,7 +40,7 @@ impl<'input> Parser<'input> {
 
     /// Go to the next value without reading
     pub fn advance(&mut self) {
-        self.cursor += 1;
+        self.cursor += self.current().map_or(1, char::len_utf8);
     }
 
     /// Move backwards without reading
@@ -121,7 +121,7 @@ impl<'input> Parser<'input> {
 
     /// Moves the cursor forward the number of matching characters
     pub fn skip_char(&mut self, char: char) {
-        self.skip_internal(self.slice().trim_matches(char).len());
+        self.skip_internal(self.slice().trim_start_matches(char).len());
     }
 
     /// Moves the cursor forward the number of whitespace characters
@@ -213,9 +213,9 @@ impl<'input> Parser<'input> {
     ///
     /// If the next set of characters does not match the given string
     pub fn expect_str(&mut self, expected: &'static str) -> Result<(), Error<'input>> {
-        let cursor = self.cursor;
-        self.cursor += expected.len();
-        let received = self.slice_from(cursor);
+        let slice = self.slice();
+        let received = slice.get(..expected.len()).unwrap_or(slice);
+        self.cursor += received.len();
         if received == expected {
             Ok(())
         } else {
-- 
2.43.0


From 85d4fc2da5fbbad58c9266246ce48de90f7abcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:10 +0000
Subject: [PATCH 24/39] fix: stop at content that follows a closed path without
 a command

A path such as "M0 1zx" was extended with close commands forever, which
used up all memory instead of ending the run.
---
 crates/oxvg_path/src/parser.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_path/src/parser.rs b/crates/oxvg_path/src/parser.rs
index 83c8048..2be0a40 100644
--- a/crates/oxvg_path/src/parser.rs
+++ b/crates/oxvg_path/src/parser.rs
@@ -33,12 +33,19 @@ impl<'input> Path {
             if !list.is_empty() {
                 input.skip_char(',');
                 input.skip_whitespace();
+                if input.is_empty() {
+                    break;
+                }
             }
             let mut command_id = input
                 .try_parse(command::ID::parse)
                 .or_else(|_| {
-                    if let Some(last) = list.last() {
-                        Ok(command::ID::Implicit(Box::new(last.id().next_implicit())))
+                    let implicit = list.last().map(|last| last.id().next_implicit());
+                    if let Some(command::ID::ClosePath) = implicit {
+                        // Takes no arguments, so cannot be followed by any without a command
+                        Err(oxvg_parse::error::Error::Path(PathError::NoCommand))
+                    } else if let Some(implicit) = implicit {
+                        Ok(command::ID::Implicit(Box::new(implicit)))
                     } else if allow_implicit_start {
                         Ok(command::ID::MoveTo)
                     } else {
-- 
2.43.0


From 220d8f83fe2991a0c88222bb074fcd5fb39ee299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:27:47 +0000
Subject: [PATCH 25/39] fix: keep the order of class names when adding classes
 to the svg element

The names went through a hash set, so their order differed with every run.
---
 .../src/jobs/add_classes_to_s_v_g_element.rs             | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs b/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs
index 4b603e0..628b5b5 100644
--- a/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs
+++ b/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs
@@ -100,17 +100,14 @@ impl<'input, 'arena> Visitor<'input, 'arena> for AddClassesToSVGElement {
 
         match &self.class_names {
             Some(names) => {
-                let mut set = HashSet::new();
-                for item in class.list.drain(..) {
-                    set.insert(item);
-                }
-                set.extend(
+                class.list.extend(
                     names
                         .iter()
                         .map(|name| &*context.info.allocator.alloc_str(name))
                         .map(Into::into),
                 );
-                class.list = set.into_iter().collect();
+                let mut set = HashSet::new();
+                class.list.retain(|item| set.insert(item.clone()));
             }
             None => match &self.class_name {
                 Some(name) => {
-- 
2.43.0


From 736f8554ee4c6e5b0ca93ccab8bbdb2c5a9cc0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:17 +0000
Subject: [PATCH 26/39] fix: count each detached gradient once

A gradient with one stop was counted again for each enclosing svg element, so the count of
references became negative: a panic in debug builds, a leftover namespace otherwise.
---
 crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
index 31bb659..13a4c01 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
@@ -170,7 +170,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
             return Ok(());
         }
 
-        for gradient in self.gradients_to_detach.borrow().values() {
+        for gradient in self.gradients_to_detach.take().values() {
             if has_attribute!(gradient, XLinkHref) {
                 self.xlink_href_count.set(self.xlink_href_count.get() - 1);
             }
-- 
2.43.0


From 99cf196b31106a02cfd4751f48a6af3074dd9d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:41 +0000
Subject: [PATCH 27/39] fix: allow style elements with several children

A debug assertion ended the program for documents with an element inside of a style element.
---
 crates/oxvg_ast/src/node.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/oxvg_ast/src/node.rs b/crates/oxvg_ast/src/node.rs
index 5973cfc..0973598 100644
--- a/crates/oxvg_ast/src/node.rs
+++ b/crates/oxvg_ast/src/node.rs
@@ -517,7 +517,6 @@ impl<'input, 'arena> Node<'input, 'arena> {
         match &self.node_data {
             NodeData::Style(style) => Some(style),
             NodeData::Element { name, .. } if is_element!(name, Style) => {
-                debug_assert!(self.child_node_count() <= 1);
                 self.first_child().and_then(Node::style)
             }
             _ => None,
-- 
2.43.0


From 8a9832bc28fed063991ecde15f2df8e128fee140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:41 +0000
Subject: [PATCH 28/39] fix: look for animations before borrowing the attribute
 to move

A group with an animation as its only child ended the program with a panic.
---
 crates/oxvg_optimiser/src/jobs/collapse_groups.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
index 4726c2d..62044d2 100644
--- a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
+++ b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
@@ -117,12 +117,12 @@ fn move_attributes_to_child(element: Element) {
     let first_child_attrs = first_child.attributes();
     for mut attr in attrs.into_iter_mut() {
         let name = attr.name().clone();
-        let child_attr = first_child_attrs.get_named_item_mut(&name);
         if has_animated_attr(first_child, name.local_name()) {
             log::debug!("collapse_groups: canelled moves: has animated_attr");
             return;
         }
 
+        let child_attr = first_child_attrs.get_named_item_mut(&name);
         removals.push(name);
         let Some(mut child_attr) = child_attr else {
             log::debug!("collapse_groups: moved {attr:?}: same as parent");
-- 
2.43.0


From 1cb8bbc1853d3aeae1ac6653a0922263e83aacdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:41 +0000
Subject: [PATCH 29/39] fix: remove empty definitions in a fixed order

Definitions were visited in the order of a hash map, so whether one that contains only another
one was removed differed with every run. References without a leading # also no longer panic.
---
 .../src/jobs/convert_one_stop_gradients.rs          |  7 ++++---
 .../oxvg_optimiser/src/jobs/remove_hidden_elems.rs  | 13 +++++++------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
index 13a4c01..73198e9 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
@@ -54,7 +54,7 @@ struct State<'input, 'arena> {
     /// Parent defs with removed gradients
     effected_defs: RefCell<HashMap<AllocationID, Element<'input, 'arena>>>,
     /// All defs and their associated parent
-    all_defs: RefCell<HashMap<AllocationID, Element<'input, 'arena>>>,
+    all_defs: RefCell<Vec<Element<'input, 'arena>>>,
     gradients_to_detach: RefCell<HashMap<AllocationID, Element<'input, 'arena>>>,
     xlink_href_count: Cell<usize>,
 }
@@ -95,7 +95,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
             self.xlink_href_count.set(self.xlink_href_count.get() + 1);
         }
         if is_element!(element, Defs) {
-            self.all_defs.borrow_mut().insert(element.id(), element);
+            self.all_defs.borrow_mut().push(element);
             return Ok(());
         } else if !is_element!(element, LinearGradient | RadialGradient) {
             return Ok(());
@@ -186,7 +186,8 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
         }
 
         let effected_defs = self.effected_defs.borrow();
-        for def in self.all_defs.borrow().values() {
+        // Nested definitions first
+        for def in self.all_defs.borrow().iter().rev() {
             if !def.has_child_elements() && effected_defs.contains_key(&def.id()) {
                 def.remove();
             }
diff --git a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
index 36eea70..c49cdf0 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
@@ -100,7 +100,7 @@ struct Data<'input, 'arena> {
     opacity_zero: bool,
     non_rendered_nodes: RefCell<HashSet<HashableElement<'input, 'arena>>>,
     removed_def_ids: RefCell<HashSet<Atom<'input>>>,
-    all_defs: RefCell<HashSet<HashableElement<'input, 'arena>>>,
+    all_defs: RefCell<Vec<Element<'input, 'arena>>>,
     all_references: RefCell<HashSet<String>>,
     references_by_id: RefCell<HashMap<String, Vec<Element<'input, 'arena>>>>,
 }
@@ -183,16 +183,16 @@ impl<'input, 'arena> Data<'input, 'arena> {
     fn ref_element(&self, element: Element<'input, 'arena>) {
         match element.qual_name().unaliased() {
             ElementId::Defs => {
-                self.all_defs
-                    .borrow_mut()
-                    .insert(HashableElement::new(element));
+                self.all_defs.borrow_mut().push(element);
             }
             ElementId::Use => {
                 for attr in element.attributes() {
                     let (Attr::Href(value) | Attr::XLinkHref(value)) = &*attr else {
                         continue;
                     };
-                    let id = &value[1..];
+                    let Some(id) = value.strip_prefix('#') else {
+                        continue;
+                    };
 
                     let mut references_by_id = self.references_by_id.borrow_mut();
                     let refs = references_by_id.get_mut(id);
@@ -311,7 +311,8 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
             }
         }
 
-        for node in &*self.data.all_defs.borrow() {
+        // Nested definitions first
+        for node in self.data.all_defs.borrow().iter().rev() {
             if node.is_empty() {
                 log::debug!("RemoveHiddenElems: remove def");
                 node.remove();
-- 
2.43.0


From b590e81d5c207988f4a6adb303ac2a1d3e9d25bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:27 +0000
Subject: [PATCH 30/39] fix: identify elements by their node when matching
 selectors

The address of a temporary was used, so cached positions of one element were taken for those of
another and selectors with :nth-child matched the wrong elements.
---
 crates/oxvg_ast/src/selectors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/selectors.rs b/crates/oxvg_ast/src/selectors.rs
index 0779cdf..2fd9de2 100644
--- a/crates/oxvg_ast/src/selectors.rs
+++ b/crates/oxvg_ast/src/selectors.rs
@@ -345,7 +345,7 @@ impl selectors::Element for SelectElement<'_, '_> {
     type Impl = SelectorImpl;
 
     fn opaque(&self) -> selectors::OpaqueElement {
-        selectors::OpaqueElement::new(self)
+        selectors::OpaqueElement::new(&**self.element)
     }
 
     fn parent_element(&self) -> Option<Self> {
-- 
2.43.0


From 1289b0729deaff27e934572d168b8e4b9ac4f0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:27 +0000
Subject: [PATCH 31/39] fix: join curves by a line when their position cannot
 be found

Combining paths panicked when rounding moved a point off its curve.
---
 .../src/algorithm/bool_ops/i_overlay_integration.rs      | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_path/src/algorithm/bool_ops/i_overlay_integration.rs b/crates/oxvg_path/src/algorithm/bool_ops/i_overlay_integration.rs
index 697e4a9..8cf963d 100644
--- a/crates/oxvg_path/src/algorithm/bool_ops/i_overlay_integration.rs
+++ b/crates/oxvg_path/src/algorithm/bool_ops/i_overlay_integration.rs
@@ -264,8 +264,13 @@ pub mod convert {
                             segment.data.push(segment::Data::LineTo(t2));
                         }
                         segment::Data::CurveTo(curve) => {
-                            let t1 = curve.t_at(seg.start, t1, tolerance).unwrap();
-                            let t2 = curve.t_at(seg.start, t2, tolerance).unwrap();
+                            let (Some(t1), Some(t2)) = (
+                                curve.t_at(seg.start, t1, tolerance),
+                                curve.t_at(seg.start, t2, tolerance),
+                            ) else {
+                                segment.data.push(segment::Data::LineTo(t2));
+                                continue;
+                            };
                             segment.data.push(segment::Data::CurveTo(if t1 <= t2 {
                                 curve.clamp_t(seg.start, t1, t2)
                             } else {
-- 
2.43.0


From f9426754d7f2b7b413a95bbab61ec86a52f97660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:27 +0000
Subject: [PATCH 32/39] fix: toggle each of several class names

A debug assertion ended the program when the argument contained whitespace.
---
 crates/oxvg_actions/src/actions/manipulate.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_actions/src/actions/manipulate.rs b/crates/oxvg_actions/src/actions/manipulate.rs
index 5eafa09..cdd1a55 100644
--- a/crates/oxvg_actions/src/actions/manipulate.rs
+++ b/crates/oxvg_actions/src/actions/manipulate.rs
@@ -74,7 +74,9 @@ impl<'input> Actor<'input, '_> {
                 continue;
             };
             let mut class_list = element.class_list();
-            class_list.toggle(name.clone());
+            for name in name.split_whitespace() {
+                class_list.toggle(name.to_string().into());
+            }
         }
 
         self.effect_document()
-- 
2.43.0


From f4ec4f8a6084afba991aadebc85d5d4bcdba20ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:47 +0000
Subject: [PATCH 33/39] fix: combine a path that is selected more than once
 only once

Selecting the same element twice made a path operation combine the
element with itself and then remove it from the document.
---
 crates/oxvg_actions/src/actions/manipulate/path.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_actions/src/actions/manipulate/path.rs b/crates/oxvg_actions/src/actions/manipulate/path.rs
index b0d1683..7473c55 100644
--- a/crates/oxvg_actions/src/actions/manipulate/path.rs
+++ b/crates/oxvg_actions/src/actions/manipulate/path.rs
@@ -83,9 +83,12 @@ impl<'input> Actor<'input, '_> {
     }
 
     fn boolean_op(&mut self, overlay_rule: OverlayRule) -> Result<Option<Integer>, Error<'input>> {
-        let Some(selections) = self.get_selections()? else {
+        let Some(mut selections) = self.get_selections()? else {
             return Ok(None);
         };
+        // An element selected more than once is a single operand
+        let mut seen = std::collections::HashSet::new();
+        selections.retain(|s| seen.insert(*s));
         let Some(root) = Element::from_parent(self.root) else {
             return Ok(None);
         };
-- 
2.43.0


From c298bd6fd47cdd97f2ce8e88e462d5c402dbdf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:28 +0000
Subject: [PATCH 34/39] fix: keep the selection of a saved session on the same
 elements

Saved ids count nodes. Whitespace between elements was left out of the saved
text, and neighbouring text nodes became one, so that the ids denoted other
nodes when the session was resumed.
---
 crates/oxvg_actions/src/actions.rs | 35 ++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_actions/src/actions.rs b/crates/oxvg_actions/src/actions.rs
index 061efcc..15b02ff 100644
--- a/crates/oxvg_actions/src/actions.rs
+++ b/crates/oxvg_actions/src/actions.rs
@@ -1,4 +1,9 @@
-use oxvg_ast::{arena::Allocator, node::Ref, serialize::Node};
+use oxvg_ast::{
+    arena::Allocator,
+    node::{self, Ref},
+    serialize::Node,
+    xmlwriter::{Options, Space},
+};
 use oxvg_collections::{
     atom::Atom,
     attribute::{
@@ -34,6 +39,24 @@ pub struct Actor<'input, 'arena> {
     pub(crate) state: State<'input, 'arena>,
 }
 
+/// Merges adjacent text nodes into one, as they are when the document is parsed
+fn merge_text<'input, 'arena>(node: Ref<'input, 'arena>, allocator: &Allocator<'input, 'arena>) {
+    let mut child = node.first_child();
+    while let Some(current) = child {
+        while current.node_type() == node::Type::Text
+            && let Some(next) = current.next_sibling()
+            && next.node_type() == node::Type::Text
+        {
+            let mut text = current.text_content().unwrap_or_default().to_string();
+            text.push_str(&next.text_content().unwrap_or_default());
+            current.set_text_content(text.into(), allocator);
+            next.remove();
+        }
+        merge_text(current, allocator);
+        child = current.next_sibling();
+    }
+}
+
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "wasm", tsify(from_wasm_abi, into_wasm_abi))]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
@@ -165,8 +188,16 @@ impl<'input, 'arena> Actor<'input, 'arena> {
     /// If serialization fails, or if the document is missing a root element.
     pub fn snapshot(&mut self) -> Result<String, Error<'input>> {
         self.effect_state(StateEffect::Embed)?;
+        // The selected ids must denote the same nodes when the snapshot is parsed again
+        merge_text(self.root, &self.allocator);
+        if self.state.selection.is_some() {
+            self.effect_tree()?;
+        }
         self.root
-            .serialize()
+            .serialize_with_options(Options {
+                trim_whitespace: Space::Never,
+                ..Options::default()
+            })
             .map_err(|err| Error::SerializeError(err.to_string()))
     }
 
-- 
2.43.0


From 5c7bdb36bc3888b02bd51715355786b9514012b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:25:15 +0000
Subject: [PATCH 35/39] fix: keep arguments of nothing but whitespace in the
 history of a session

---
 crates/oxvg_actions/src/state.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_actions/src/state.rs b/crates/oxvg_actions/src/state.rs
index 86f9f32..4cb70a0 100644
--- a/crates/oxvg_actions/src/state.rs
+++ b/crates/oxvg_actions/src/state.rs
@@ -265,7 +265,12 @@ impl<'input> Action<'input> {
         };
         let mut args = element.children_iter().map(|child| {
             assert_oxvg_element(child, Self::ARG)?;
-            Ok(child.text_content().unwrap_or_default())
+            // The text content of an element with nothing but whitespace is empty
+            Ok(child
+                .child_nodes_iter()
+                .filter_map(|node| node.text_content())
+                .fold(String::new(), |text, part| text + part.as_str())
+                .into())
         });
         let n_args = |value: Result<Atom<'input>, Error<'input>>| {
             value.and_then(|value| {
-- 
2.43.0


From 014d16139e6dbc7466a566011881855106330945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:23:53 +0000
Subject: [PATCH 36/39] fix: leave out omitted jobs when no preset is extended

---
 crates/oxvg/src/config.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg/src/config.rs b/crates/oxvg/src/config.rs
index 4dab3e8..e731db5 100644
--- a/crates/oxvg/src/config.rs
+++ b/crates/oxvg/src/config.rs
@@ -87,10 +87,10 @@ impl Optimise {
     /// Creates a job configuration where the user-configured jobs extends the preset
     /// specified in `extends`
     pub fn resolve_jobs(&self) -> oxvg_optimiser::Jobs {
-        let Some(extends) = &self.extends else {
-            return self.jobs.clone();
+        let mut result = match &self.extends {
+            Some(extends) => extends.extend(&self.jobs),
+            None => self.jobs.clone(),
         };
-        let mut result = extends.extend(&self.jobs);
         if let Some(omit) = self.omit.as_ref() {
             for omit in omit {
                 result.omit(omit);
-- 
2.43.0


From 803d069da4e9cd08c24155989c966f2e9df9133c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:48:51 +0000
Subject: [PATCH 37/39] fix: lint documents with very long lines without
 panicking

---
 crates/oxvg_lint/src/error.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_lint/src/error.rs b/crates/oxvg_lint/src/error.rs
index 0428c0c..9c07113 100644
--- a/crates/oxvg_lint/src/error.rs
+++ b/crates/oxvg_lint/src/error.rs
@@ -220,11 +220,11 @@ impl Error<'_> {
         }
         if current_line_number > line_number + 1 {
             f.write_fmt(format_args!("\n {: <padding$} · \x1b[35m", ""))?;
-            f.write_fmt(format_args!("{:─<1$}\x1b[0m", "", column + range.len()))?;
+            f.write_fmt(format_args!("{}\x1b[0m", "─".repeat(column + range.len())))?;
         } else {
             f.write_fmt(format_args!("\n {: <1$} · ", "", padding))?;
-            f.write_fmt(format_args!("{: <1$}\x1b[35m", "", column))?;
-            f.write_fmt(format_args!("{:─<1$}\x1b[0m", "", range.len()))?;
+            f.write_fmt(format_args!("{}\x1b[35m", " ".repeat(column)))?;
+            f.write_fmt(format_args!("{}\x1b[0m", "─".repeat(range.len())))?;
         }
 
         if !next_line.is_empty() {
-- 
2.43.0


From 2cc4a479cd837b13a44194fbf14f762e8fac2d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:48:07 +0000
Subject: [PATCH 38/39] fix: end the search for intersections of paths that are
 not finite

---
 crates/oxvg_path/src/gjk_intersection.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_path/src/gjk_intersection.rs b/crates/oxvg_path/src/gjk_intersection.rs
index 3c704b6..420ca50 100644
--- a/crates/oxvg_path/src/gjk_intersection.rs
+++ b/crates/oxvg_path/src/gjk_intersection.rs
@@ -138,7 +138,8 @@ impl IndexBounds {
         let mut max = -f64::INFINITY;
         loop {
             let value = self.source[index].dot(direction);
-            if value <= max {
+            // Nothing compares to the values of paths which aren't finite
+            if value.is_nan() || value <= max {
                 break;
             }
             max = value;
-- 
2.43.0


From 981f89c25d992ec0ff6a80543dd0b13e4dd8d7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:30:44 +0000
Subject: [PATCH 39/39] fix: keep earlier transforms of elements that do not
 expect them

---
 crates/oxvg_actions/src/actions/transform.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/oxvg_actions/src/actions/transform.rs b/crates/oxvg_actions/src/actions/transform.rs
index 64fed81..86c11d5 100644
--- a/crates/oxvg_actions/src/actions/transform.rs
+++ b/crates/oxvg_actions/src/actions/transform.rs
@@ -6,6 +6,8 @@ use oxvg_collections::attribute::{
     inheritable::Inheritable,
     transform::{SVGTransform, SVGTransformList},
 };
+use oxvg_parse::Parse as _;
+use oxvg_serialize::{PrinterOptions, ToValue as _};
 
 use crate::{Action, Actor, Error};
 
@@ -133,12 +135,14 @@ impl<'input> Actor<'input, '_> {
             {
                 transform_list.0.push(transform.clone());
             } else {
-                set_attribute!(
-                    element,
-                    Transform(Inheritable::Defined(SVGTransformList(vec![
-                        transform.clone()
-                    ])))
-                );
+                // Elements that don't expect the attribute have it unparsed
+                let mut transform_list = element
+                    .get_attribute_local(&"transform".into())
+                    .and_then(|attr| attr.to_value_string(PrinterOptions::default()).ok())
+                    .and_then(|value| SVGTransformList::parse_string(&value).ok())
+                    .unwrap_or_else(|| SVGTransformList(vec![]));
+                transform_list.0.push(transform.clone());
+                set_attribute!(element, Transform(Inheritable::Defined(transform_list)));
             }
         }
         Ok(())
-- 
2.43.0

