From 01e4eca887b91ffd3ad43848e9c61881eaff6085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:21 +0000
Subject: [PATCH 01/37] fix: reject an argument consisting of a lone quote
 instead of panicking

---
 stuart-core/src/parse/function.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/stuart-core/src/parse/function.rs b/stuart-core/src/parse/function.rs
index eebbff2..30620f3 100644
--- a/stuart-core/src/parse/function.rs
+++ b/stuart-core/src/parse/function.rs
@@ -46,11 +46,9 @@ impl RawArgument {
             }
 
             Ok(Self::Variable(variable_name.to_string()))
-        } else if arg.starts_with('"') && arg.ends_with('"') {
+        } else if let Some(string) = arg.strip_prefix('"').and_then(|s| s.strip_suffix('"')) {
             // Parse a positional string argument.
 
-            let string = arg.strip_prefix('"').unwrap().strip_suffix('"').unwrap();
-
             if string.contains('"') {
                 return Err(ParseError::GenericSyntaxError);
             }
-- 
2.43.0


From ae78483edacd2c383cbecdd40c3518cf17f836e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:21 +0000
Subject: [PATCH 02/37] fix: do not panic when markdown content is used before
 it was processed

---
 stuart-core/src/parse/markdown.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/parse/markdown.rs b/stuart-core/src/parse/markdown.rs
index 3b24ee1..fe86d20 100644
--- a/stuart-core/src/parse/markdown.rs
+++ b/stuart-core/src/parse/markdown.rs
@@ -106,7 +106,10 @@ impl ParsedMarkdown {
     ///   is not required, consider using [`ParsedMarkdown::to_json`], which does the same thing without returning the contents.
     pub fn to_value(&self) -> Value {
         let mut v = self.frontmatter_to_value();
-        v["content"] = Value::String(self.html.as_ref().unwrap().clone());
+        v["content"] = match &self.html {
+            Some(html) => Value::String(html.clone()),
+            None => Value::Null,
+        };
         v["markdown"] = Value::String(self.markdown_string.clone());
         v
     }
-- 
2.43.0


From 8ece1c63aa175c00fa10caf74a6a09094ab94cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:21 +0000
Subject: [PATCH 03/37] fix: return the name of a JavaScript function instead
 of panicking

---
 stuart/src/plugins/js/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index 141c269..091d937 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -173,7 +173,7 @@ impl FunctionParser for JSFunctionParser {
 
 impl Function for JSFunction {
     fn name(&self) -> &str {
-        todo!()
+        &self.name
     }
 
     fn execute(&self, stuart_scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
-- 
2.43.0


From 295935f9c50a1eb8848af708145da72fd19d762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:21 +0000
Subject: [PATCH 04/37] fix: display errors without a line number instead of
 underflowing

---
 stuart/src/error.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stuart/src/error.rs b/stuart/src/error.rs
index e5dc5b2..ceec168 100644
--- a/stuart/src/error.rs
+++ b/stuart/src/error.rs
@@ -95,9 +95,11 @@ impl<T: Clone + Debug + StuartError> StuartError for TracebackError<T> {
             .trim_start_matches("\\\\?\\")
             .to_string();
 
-        let line = read_to_string(&self.path)
-            .ok()
-            .and_then(|s| s.lines().nth(self.line as usize - 1).map(|s| s.to_string()));
+        let line = (self.line as usize).checked_sub(1).and_then(|index| {
+            read_to_string(&self.path)
+                .ok()
+                .and_then(|s| s.lines().nth(index).map(|s| s.to_string()))
+        });
 
         // Output first line (e.g. `error: some error message`)
         buf.set_color(
@@ -133,7 +135,7 @@ impl<T: Clone + Debug + StuartError> StuartError for TracebackError<T> {
             writeln!(
                 buf,
                 "{}^^^ error occurred here",
-                " ".repeat((self.column as i32 - 2).clamp(0, i32::MAX) as usize)
+                " ".repeat(self.column.saturating_sub(2) as usize)
             )
             .unwrap();
             buf.set_color(ColorSpec::new().set_fg(Some(Color::Cyan)).set_intense(true))
-- 
2.43.0


From 04b957d51eb89574e326f49e72dfe2d0e9e2dd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:21 +0000
Subject: [PATCH 05/37] fix: do not panic on environment variables that are not
 valid Unicode

---
 stuart-core/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/lib.rs b/stuart-core/src/lib.rs
index d603c01..8cc750f 100644
--- a/stuart-core/src/lib.rs
+++ b/stuart-core/src/lib.rs
@@ -136,7 +136,14 @@ impl Stuart {
         self.input = Some(input.clone());
 
         let vars = {
-            let mut env = std::env::vars().collect::<Vec<_>>();
+            let mut env = std::env::vars_os()
+                .map(|(k, v)| {
+                    (
+                        k.to_string_lossy().into_owned(),
+                        v.to_string_lossy().into_owned(),
+                    )
+                })
+                .collect::<Vec<_>>();
             env.push(("STUART_ENV".into(), stuart_env));
             env
         };
-- 
2.43.0


From aaad4079aa061840edc8e4769d0bba2c6dc8e270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:21 +0000
Subject: [PATCH 06/37] fix: do not let an inherited STUART_ENV shadow the one
 of the build

---
 stuart-core/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stuart-core/src/lib.rs b/stuart-core/src/lib.rs
index 8cc750f..3dc7853 100644
--- a/stuart-core/src/lib.rs
+++ b/stuart-core/src/lib.rs
@@ -143,6 +143,7 @@ impl Stuart {
                         v.to_string_lossy().into_owned(),
                     )
                 })
+                .filter(|(k, _)| k != "STUART_ENV")
                 .collect::<Vec<_>>();
             env.push(("STUART_ENV".into(), stuart_env));
             env
-- 
2.43.0


From 5391e00aaf7cd632f39611ff19d8b836ae5f1f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 07/37] fix: skip whole nested blocks in the branch of a
 conditional which is not taken

---
 stuart-core/src/functions/mod.rs              | 23 +++++++++++++++++++
 stuart-core/src/functions/parsers/if.rs       |  9 +++++---
 .../src/functions/parsers/ifdefined.rs        | 11 +++++----
 3 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/stuart-core/src/functions/mod.rs b/stuart-core/src/functions/mod.rs
index f203228..a053946 100644
--- a/stuart-core/src/functions/mod.rs
+++ b/stuart-core/src/functions/mod.rs
@@ -141,6 +141,29 @@ impl ToString for Input {
     }
 }
 
+/// Keeps track of the blocks nested in template code which is being skipped.
+#[derive(Default)]
+pub(crate) struct SkippedBlocks(usize);
+
+impl SkippedBlocks {
+    /// Updates the nesting depth with a skipped function, returning `true` if the function is an `end` or an `else`
+    ///   which belongs to the block being skipped, rather than to one nested inside it.
+    pub(crate) fn is_own(&mut self, name: &str) -> bool {
+        match name {
+            "begin" | "for" | "ifdefined" | "ifeq" | "ifne" | "ifgt" | "ifge" | "iflt" | "ifle" => {
+                self.0 += 1;
+                false
+            }
+            "end" if self.0 > 0 => {
+                self.0 -= 1;
+                false
+            }
+            "end" | "else" => self.0 == 0,
+            _ => false,
+        }
+    }
+}
+
 /// A macro which counts its arguments.
 macro_rules! count {
     () => { 0_usize };
diff --git a/stuart-core/src/functions/parsers/if.rs b/stuart-core/src/functions/parsers/if.rs
index f565a96..7c7679e 100644
--- a/stuart-core/src/functions/parsers/if.rs
+++ b/stuart-core/src/functions/parsers/if.rs
@@ -66,6 +66,8 @@ macro_rules! if_parsers {
                         let stack_height = scope.stack.len();
                         scope.stack.push(frame);
 
+                        let mut skipped = $crate::functions::SkippedBlocks::default();
+
                         while scope.stack.len() > stack_height {
                             let token = scope
                                 .tokens
@@ -75,9 +77,10 @@ macro_rules! if_parsers {
                             let function_name = token.as_function().map(|f| f.name().to_string());
 
                             if condition
-                                || ((function_name == Some("end".to_string())
-                                    || function_name == Some("else".to_string()))
-                                    && scope.stack.len() == stack_height + 1)
+                                || function_name
+                                    .as_ref()
+                                    .map(|name| skipped.is_own(name))
+                                    .unwrap_or(false)
                             {
                                 token.process(scope)?;
 
diff --git a/stuart-core/src/functions/parsers/ifdefined.rs b/stuart-core/src/functions/parsers/ifdefined.rs
index fb8b657..ba72375 100644
--- a/stuart-core/src/functions/parsers/ifdefined.rs
+++ b/stuart-core/src/functions/parsers/ifdefined.rs
@@ -1,4 +1,4 @@
-use crate::functions::{Function, FunctionParser};
+use crate::functions::{Function, FunctionParser, SkippedBlocks};
 use crate::parse::{ParseError, RawFunction};
 use crate::process::stack::StackFrame;
 use crate::process::{ProcessError, Scope};
@@ -51,6 +51,8 @@ impl Function for IfDefinedFunction {
         let stack_height = scope.stack.len();
         scope.stack.push(frame);
 
+        let mut skipped = SkippedBlocks::default();
+
         while scope.stack.len() > stack_height {
             let token = scope
                 .tokens
@@ -60,9 +62,10 @@ impl Function for IfDefinedFunction {
             let function_name = token.as_function().map(|f| f.name().to_string());
 
             if defined
-                || ((function_name == Some("end".to_string())
-                    || function_name == Some("else".to_string()))
-                    && scope.stack.len() == stack_height + 1)
+                || function_name
+                    .as_ref()
+                    .map(|name| skipped.is_own(name))
+                    .unwrap_or(false)
             {
                 token.process(scope)?;
 
-- 
2.43.0


From 881fa2469d72bf50553a5eccd75ad4fbce2b2eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 08/37] fix: skip the body of a loop over nothing

---
 stuart-core/src/functions/parsers/for.rs | 27 +++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/functions/parsers/for.rs b/stuart-core/src/functions/parsers/for.rs
index 9d58df0..fce3544 100644
--- a/stuart-core/src/functions/parsers/for.rs
+++ b/stuart-core/src/functions/parsers/for.rs
@@ -1,5 +1,5 @@
 use crate::fs::ParsedContents;
-use crate::functions::{Function, FunctionParser};
+use crate::functions::{Function, FunctionParser, SkippedBlocks};
 use crate::parse::{ParseError, RawArgument, RawFunction};
 use crate::process::stack::StackFrame;
 use crate::process::{ProcessError, Scope};
@@ -228,7 +228,10 @@ impl Function for ForFunction {
             variable_iter = Box::new(variable_iter.take(l));
         }
 
+        let mut is_empty = true;
+
         for variable in variable_iter {
+            is_empty = false;
             scope.tokens.rewind_to(waypoint);
 
             let frame = {
@@ -249,6 +252,28 @@ impl Function for ForFunction {
             }
         }
 
+        if is_empty {
+            // There is nothing to iterate over, so skip to the end of the loop.
+            let stack_height = scope.stack.len();
+            let mut skipped = SkippedBlocks::default();
+            scope
+                .stack
+                .push(StackFrame::new(format!("for:{}", self.variable_name)));
+
+            while scope.stack.len() > stack_height {
+                let token = scope
+                    .tokens
+                    .next()
+                    .ok_or_else(|| self_token.traceback(ProcessError::UnexpectedEndOfFile))?;
+
+                if let Some(function) = token.as_function() {
+                    if skipped.is_own(function.name()) {
+                        token.process(scope)?;
+                    }
+                }
+            }
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 06f419b0dd0285a117b9af5648c79a87bd6ec600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 09/37] fix: report a block left open in the root template

---
 stuart-core/src/process/mod.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/stuart-core/src/process/mod.rs b/stuart-core/src/process/mod.rs
index fc32c0b..cafadea 100644
--- a/stuart-core/src/process/mod.rs
+++ b/stuart-core/src/process/mod.rs
@@ -135,8 +135,19 @@ impl Node {
             token.process(&mut scope)?;
         }
 
+        let frame = scope
+            .stack
+            .pop()
+            .filter(|frame| frame.name == "base")
+            .ok_or(TracebackError {
+                path: self.source().to_path_buf(),
+                line: 0,
+                column: 0,
+                kind: ProcessError::StackError,
+            })?;
+
         Ok(ProcessOutput {
-            new_contents: Some(stack.pop().unwrap().output),
+            new_contents: Some(frame.output),
             new_name: None,
         })
     }
@@ -206,10 +217,21 @@ impl Node {
             token.process(&mut scope)?;
         }
 
+        let frame = scope
+            .stack
+            .pop()
+            .filter(|frame| frame.name == "base")
+            .ok_or(TracebackError {
+                path: self.source().to_path_buf(),
+                line: 0,
+                column: 0,
+                kind: ProcessError::StackError,
+            })?;
+
         let new_name = format!("{}.html", self.name().strip_suffix(".md").unwrap());
 
         Ok(ProcessOutput {
-            new_contents: Some(stack.pop().unwrap().output),
+            new_contents: Some(frame.output),
             new_name: Some(new_name),
         })
     }
-- 
2.43.0


From 785cecedecbc3b61369e5dd1d98a6aa2658987a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 10/37] fix: report two files published at the same path
 instead of overwriting the first

---
 stuart-core/src/fs/mod.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 0f3129a..575d395 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -15,8 +15,8 @@ use humphrey_json::prelude::*;
 use humphrey_json::Value;
 
 use std::fmt::Debug;
-use std::fs::{create_dir, metadata, read, read_dir, remove_dir_all, write};
-use std::io::ErrorKind;
+use std::fs::{create_dir, metadata, read, read_dir, remove_dir_all, write, OpenOptions};
+use std::io::{ErrorKind, Write};
 use std::path::{Component, Path, PathBuf};
 use std::rc::Rc;
 
@@ -351,6 +351,7 @@ impl Node {
                 name,
                 contents,
                 parsed_contents,
+                source,
                 ..
             } => {
                 if name != "root.html"
@@ -371,10 +372,9 @@ impl Node {
                             Err(_) => return Err(Error::Fs(FsError::Write)),
                         };
 
-                        write(dir.join("index.html"), contents)
-                            .map_err(|_| Error::Fs(FsError::Write))?;
+                        write_new(dir.join("index.html"), contents, source)?;
                     } else {
-                        write(path.join(name), contents).map_err(|_| Error::Fs(FsError::Write))?;
+                        write_new(path.join(name), contents, source)?;
                     }
                 }
             }
@@ -423,6 +423,21 @@ impl Node {
     }
 }
 
+/// Writes a new file, returning an error if something has already been saved at its path.
+fn write_new(path: PathBuf, contents: &[u8], source: &Path) -> Result<(), Error> {
+    OpenOptions::new()
+        .write(true)
+        .create_new(true)
+        .open(&path)
+        .and_then(|mut file| file.write_all(contents))
+        .map_err(|e| match e.kind() {
+            ErrorKind::AlreadyExists => {
+                Error::Fs(FsError::Conflict(path.clone(), source.to_path_buf()))
+            }
+            _ => Error::Fs(FsError::Write),
+        })
+}
+
 impl Debug for Node {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
-- 
2.43.0


From 6f99c50681c1b4e3e6d96f9d76b80e6f37849c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 11/37] fix: report directory entries which cannot be read
 instead of dropping them

---
 stuart-core/src/fs/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 575d395..c344ae9 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -172,9 +172,8 @@ impl Node {
             .map_err(|_| Error::Fs(FsError::NotFound(dir.to_string_lossy().to_string())))?;
 
         let children = content
-            .flatten()
             .map(|path| {
-                let path = path.path();
+                let path = path.map_err(|_| Error::Fs(FsError::Read))?.path();
 
                 match metadata(&path).map(|m| m.file_type()) {
                     Ok(t) if t.is_dir() => Self::create_from_dir(&path, parse, plugins),
-- 
2.43.0


From 7cd2faa0566f8979b96585b886395861e9a9366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 12/37] fix: do not depend on the order in which directories
 are listed

---
 stuart-core/src/fs/mod.rs | 7 +++++--
 stuart/src/scripts.rs     | 4 ++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index c344ae9..09f9e3f 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -171,7 +171,7 @@ impl Node {
         let content = read_dir(dir)
             .map_err(|_| Error::Fs(FsError::NotFound(dir.to_string_lossy().to_string())))?;
 
-        let children = content
+        let mut children = content
             .map(|path| {
                 let path = path.map_err(|_| Error::Fs(FsError::Read))?.path();
 
@@ -181,7 +181,10 @@ impl Node {
                     _ => Err(Error::Fs(FsError::Read)),
                 }
             })
-            .collect::<Result<_, _>>()?;
+            .collect::<Result<Vec<_>, _>>()?;
+
+        // The order in which the filesystem lists entries is unspecified.
+        children.sort_by(|a, b| a.name().cmp(b.name()));
 
         Ok(Node::Directory {
             name: dir.file_name().unwrap().to_string_lossy().to_string(),
diff --git a/stuart/src/scripts.rs b/stuart/src/scripts.rs
index 097012b..823b149 100644
--- a/stuart/src/scripts.rs
+++ b/stuart/src/scripts.rs
@@ -70,6 +70,10 @@ impl Scripts {
                 }
             }
 
+            // The order in which the filesystem lists entries is unspecified.
+            scripts.on_pre_build.sort();
+            scripts.on_post_build.sort();
+
             scripts
         } else {
             Self::default()
-- 
2.43.0


From 70369273281c693f82143c66ce80599f9e764a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 13/37] fix: report a scripts directory which cannot be read
 instead of skipping the scripts

---
 stuart/src/build.rs   |  2 +-
 stuart/src/scripts.rs | 15 ++++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/stuart/src/build.rs b/stuart/src/build.rs
index 48c31da..79ba589 100644
--- a/stuart/src/build.rs
+++ b/stuart/src/build.rs
@@ -70,7 +70,7 @@ impl StuartContext {
 
         let config: Config = config.into();
 
-        let scripts = Scripts::from_directory(path.parent().unwrap().join("scripts"))
+        let scripts = Scripts::from_directory(path.parent().unwrap().join("scripts"))?
             .with_environment_variables(vec![
                 (
                     "STUART_MANIFEST_PATH".into(),
diff --git a/stuart/src/scripts.rs b/stuart/src/scripts.rs
index 823b149..0207190 100644
--- a/stuart/src/scripts.rs
+++ b/stuart/src/scripts.rs
@@ -52,11 +52,16 @@ pub enum ScriptError {
 
 impl Scripts {
     /// Loads scripts from the given directory.
-    pub fn from_directory(dir: impl AsRef<Path>) -> Self {
-        if let Ok(dir) = read_dir(dir.as_ref()) {
+    pub fn from_directory(dir: impl AsRef<Path>) -> Result<Self, ScriptError> {
+        let dir = dir.as_ref();
+        let error = || ScriptError::CouldNotExecute(dir.to_string_lossy().to_string());
+
+        if dir.exists() {
             let mut scripts = Self::default();
 
-            for entry in dir.flatten() {
+            for entry in read_dir(dir).map_err(|_| error())? {
+                let entry = entry.map_err(|_| error())?;
+
                 if entry.path().is_file() {
                     if constants::PRE_BUILD_SCRIPT_NAMES
                         .contains(&entry.file_name().to_string_lossy().as_ref())
@@ -74,9 +79,9 @@ impl Scripts {
             scripts.on_pre_build.sort();
             scripts.on_post_build.sort();
 
-            scripts
+            Ok(scripts)
         } else {
-            Self::default()
+            Ok(Self::default())
         }
     }
 
-- 
2.43.0


From e428edc7b18c3602ec810df497e57f9d25810b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 14/37] fix: exit with an error when the development server
 cannot be started

---
 stuart/src/serve/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index d4e7e02..25c4696 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -78,8 +78,10 @@ pub fn serve(args: ArgMatches) -> Result<(), Box<dyn StuartError>> {
             .with_route("/*", serve_dir)
             .with_websocket_route("/__ws", websocket_handler);
 
-        app.run("127.0.0.1:6904")
-            .map_err(|_| Box::new("failed to start development server") as Box<dyn StuartError>)
+        if app.run("127.0.0.1:6904").is_err() {
+            "failed to start development server".print();
+            std::process::exit(1);
+        }
     });
 
     build_watcher(rx, streams, path, ctx);
-- 
2.43.0


From 786dab89132c17beafc1028ea16d1e3caa62ecfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 15/37] fix: ignore exactly Stuart's own writes in the
 development server

---
 stuart/src/serve/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index 25c4696..58cc7ef 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -96,11 +96,19 @@ fn build_watcher(
     path: PathBuf,
     mut ctx: StuartContext,
 ) {
+    let ignored = [
+        path.join(&ctx.output),
+        path.join("temp"),
+        path.join("metadata.json"),
+        path.join("_build"),
+    ];
+
     loop {
         if let Ok(e) = rx.recv() {
-            let p = e.path.as_ref().unwrap().strip_prefix(&path).unwrap();
+            // Events without a path, for example when some were lost, could be about any file.
+            let p = e.path.as_deref().unwrap_or(&path);
 
-            if p.starts_with("dist") || p.starts_with("temp") {
+            if ignored.iter().any(|ignored| p.starts_with(ignored)) {
                 continue;
             }
 
@@ -117,9 +125,7 @@ fn build_watcher(
             log!(
                 "Detected",
                 "change at {}, rebuilding",
-                e.path
-                    .unwrap()
-                    .to_string_lossy()
+                p.to_string_lossy()
                     .trim_start_matches("\\\\?\\")
             );
 
-- 
2.43.0


From b2b854ce6ae10df30c63b4f4c768b65dfa3c2c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 16/37] fix: do not panic when serving a file whose extension
 is not valid Unicode

---
 stuart/src/serve/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index 58cc7ef..9b2f886 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -190,7 +190,7 @@ fn serve_dir(request: Request, state: Arc<State>) -> Response {
                         return if let Some(extension) = path.extension() {
                             Response::new(StatusCode::OK, buf).with_header(
                                 HeaderType::ContentType,
-                                MimeType::from_extension(extension.to_str().unwrap()).to_string(),
+                                MimeType::from_extension(&extension.to_string_lossy()).to_string(),
                             )
                         } else {
                             Response::new(StatusCode::OK, buf)
-- 
2.43.0


From da9a5a92b43ee3c6996435f00e09851f6994111b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 17/37] fix: report JavaScript functions which throw instead of
 ignoring them

---
 stuart-core/src/error.rs     |  2 ++
 stuart/src/error.rs          |  4 ++++
 stuart/src/plugins/js/mod.rs | 19 ++++++++++++-------
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/stuart-core/src/error.rs b/stuart-core/src/error.rs
index 74dc17d..595d908 100644
--- a/stuart-core/src/error.rs
+++ b/stuart-core/src/error.rs
@@ -105,6 +105,8 @@ pub enum ProcessError {
     NullError(String),
     /// The file was not found.
     NotFound(String),
+    /// The plugin function failed.
+    PluginFunctionError(String),
 
     /// The data type of the variable was invalid.
     InvalidDataType {
diff --git a/stuart/src/error.rs b/stuart/src/error.rs
index ceec168..a4ed3c2 100644
--- a/stuart/src/error.rs
+++ b/stuart/src/error.rs
@@ -291,6 +291,9 @@ impl StuartError for ProcessError {
             }
             ProcessError::NullError(name) => format!("null error: `{}`", name).display(buf),
             ProcessError::NotFound(name) => format!("not found: `{}`", name).display(buf),
+            ProcessError::PluginFunctionError(name) => {
+                format!("plugin function failed: `{}`", name).display(buf)
+            }
             ProcessError::InvalidDataType {
                 variable,
                 expected,
@@ -343,6 +346,7 @@ impl StuartError for ProcessError {
                     .to_string(),
             ),
             ProcessError::NotFound(_) => None,
+            ProcessError::PluginFunctionError(_) => None,
             ProcessError::InvalidDataType { .. } => None,
         }
     }
diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index 091d937..6ff940a 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -202,18 +202,23 @@ impl Function for JSFunction {
 
             let key = v8::String::new(scope, &format!("_stuart_{}", self.name)).unwrap();
             let function_obj = context.global(scope).get(scope, key.into()).unwrap();
-            let function = v8::Local::<v8::Function>::try_from(function_obj).unwrap();
+            let error =
+                || self_token.traceback(ProcessError::PluginFunctionError(self.name.clone()));
+            let function =
+                v8::Local::<v8::Function>::try_from(function_obj).map_err(|_| error())?;
 
             // Make the `stuart_scope`` variable accessible from JavaScript calls back into Rust.
             // If I've done this right (which is a big if), this should be safe because the V8 scope is dropped/GC'd as soon as `execute` returns.
             context::set_stuart_context(scope, stuart_scope);
 
-            if let Some(result) = function.call(scope, function_obj, &evaluated_args) {
-                if !result.is_undefined() {
-                    stuart_scope
-                        .output(result.to_rust_string_lossy(scope))
-                        .unwrap();
-                }
+            let result = function
+                .call(scope, function_obj, &evaluated_args)
+                .ok_or_else(error)?;
+
+            if !result.is_undefined() {
+                stuart_scope
+                    .output(result.to_rust_string_lossy(scope))
+                    .unwrap();
             }
 
             Ok(())
-- 
2.43.0


From 790041ea342da655e063c92d57d8c1ebf29b006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 18/37] fix: do not panic on undefined values nested in
 JavaScript values

---
 stuart/src/plugins/js/json.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stuart/src/plugins/js/json.rs b/stuart/src/plugins/js/json.rs
index 163cdac..883840a 100644
--- a/stuart/src/plugins/js/json.rs
+++ b/stuart/src/plugins/js/json.rs
@@ -76,7 +76,7 @@ pub fn js_to_json<'a>(
         for i in 0..length {
             let v8_value = v8_array.get_index(scope, i).unwrap();
             let value = js_to_json(v8_value, scope);
-            array.push(value.unwrap());
+            array.push(value?);
         }
         return Some(Value::Array(array));
     }
@@ -94,7 +94,7 @@ pub fn js_to_json<'a>(
             let key = v8_key.to_rust_string_lossy(scope).to_string();
             let v8_value = v8_object.get(scope, v8_key).unwrap();
             let value = js_to_json(v8_value, scope);
-            object.push((key, value.unwrap()));
+            object.push((key, value?));
         }
 
         return Some(Value::Object(object));
-- 
2.43.0


From b9d610e143b855c78cd5f3bd2bd4c6286ea12776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 19/37] fix: reject named arguments of JavaScript functions
 instead of ignoring them

---
 stuart/src/plugins/js/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index 6ff940a..40b69b3 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -7,7 +7,7 @@ use stuart_core::functions::{Function, FunctionParser};
 use stuart_core::parse::{ParseError, RawArgument, RawFunction};
 use stuart_core::plugins::Plugin;
 use stuart_core::process::{ProcessError, Scope};
-use stuart_core::TracebackError;
+use stuart_core::{quiet_assert, TracebackError};
 
 use std::cell::RefCell;
 use std::path::Path;
@@ -163,6 +163,8 @@ impl FunctionParser for JSFunctionParser {
     }
 
     fn parse(&self, raw: RawFunction) -> Result<Box<dyn Function>, ParseError> {
+        quiet_assert!(raw.named_args.is_empty())?;
+
         Ok(Box::new(JSFunction {
             name: self.name.clone(),
             context: self.context.clone(),
-- 
2.43.0


From e62663a72c87be701047417d974ec895570e9bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 20/37] fix: escape the site name and author in the manifest of
 a new site

---
 stuart/src/new.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stuart/src/new.rs b/stuart/src/new.rs
index 0c56aac..af1e79e 100644
--- a/stuart/src/new.rs
+++ b/stuart/src/new.rs
@@ -21,12 +21,15 @@ pub fn new(args: &ArgMatches) -> Result<(), Box<dyn StuartError>> {
     let path = PathBuf::from(name);
     let no_git = args.is_present("no-git");
 
-    let mut manifest: Vec<u8> = format!("[site]\nname = \"{}\"", name).as_bytes().to_vec();
+    let mut manifest: Vec<u8> = format!("[site]\nname = {}", toml::Value::from(name))
+        .as_bytes()
+        .to_vec();
 
     if let Some((name, email)) =
         git::get_user_name().and_then(|name| git::get_user_email().map(|email| (name, email)))
     {
-        write!(&mut manifest, "\nauthor = \"{} <{}>\"", name, email).unwrap();
+        let author = toml::Value::from(format!("{} <{}>", name, email));
+        write!(&mut manifest, "\nauthor = {}", author).unwrap();
     }
 
     manifest.push(b'\n');
-- 
2.43.0


From 6a3ece5aba004de38b9fe6b78af2b735c5c711c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 21/37] fix: initialise the repository of a new site in its own
 directory

---
 stuart/src/new.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart/src/new.rs b/stuart/src/new.rs
index af1e79e..15117ab 100644
--- a/stuart/src/new.rs
+++ b/stuart/src/new.rs
@@ -42,7 +42,7 @@ pub fn new(args: &ArgMatches) -> Result<(), Box<dyn StuartError>> {
     extract(&path, &DEFAULT_PROJECT)?;
 
     if !no_git {
-        git::init_repository(&format!("./{}", name));
+        git::init_repository(&Path::new(".").join(name).to_string_lossy());
 
         write(path.join(".gitignore"), b"dist/\n_build/\nmetadata.json\n")
             .map_err(|_| FsError::Write)?;
-- 
2.43.0


From 39f25933a7511e1ee2c8794a46d6eadda21e9723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 22/37] fix: count lines of markdown files from the start of
 the file

---
 stuart-core/src/parse/markdown.rs |  4 ++--
 stuart-core/src/parse/mod.rs      | 12 +++++++++++-
 stuart-core/src/parse/parser.rs   |  7 +++++++
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/stuart-core/src/parse/markdown.rs b/stuart-core/src/parse/markdown.rs
index fe86d20..c0b4f68 100644
--- a/stuart-core/src/parse/markdown.rs
+++ b/stuart-core/src/parse/markdown.rs
@@ -2,7 +2,7 @@
 
 use crate::plugins::Manager;
 
-use super::{parse_html, LocatableToken, ParseError, TracebackError};
+use super::{parse_html_from_line, LocatableToken, ParseError, TracebackError};
 
 use humphrey_json::Value;
 
@@ -89,7 +89,7 @@ pub fn parse_markdown(
         .collect::<Vec<_>>()
         .join("\n");
 
-    let markdown = parse_html(&raw_markdown, path, plugins)?;
+    let markdown = parse_html_from_line(&raw_markdown, path, plugins, lines_to_skip as u32 + 1)?;
 
     Ok(ParsedMarkdown {
         frontmatter,
diff --git a/stuart-core/src/parse/mod.rs b/stuart-core/src/parse/mod.rs
index cfc358a..05a190f 100644
--- a/stuart-core/src/parse/mod.rs
+++ b/stuart-core/src/parse/mod.rs
@@ -95,9 +95,19 @@ pub fn parse_html(
     input: &str,
     path: &Path,
     plugins: Option<&dyn Manager>,
+) -> Result<Vec<LocatableToken>, TracebackError<ParseError>> {
+    parse_html_from_line(input, path, plugins, 1)
+}
+
+/// Attempts to parse part of a file, starting at the given line, into a list of tokens.
+fn parse_html_from_line(
+    input: &str,
+    path: &Path,
+    plugins: Option<&dyn Manager>,
+    line: u32,
 ) -> Result<Vec<LocatableToken>, TracebackError<ParseError>> {
     let chars = input.chars();
-    let mut parser = Parser::new(chars, path);
+    let mut parser = Parser::new(chars, path).with_line(line);
     let mut tokens = Vec::new();
 
     let (mut line, mut column) = parser.location();
diff --git a/stuart-core/src/parse/parser.rs b/stuart-core/src/parse/parser.rs
index bf76b0c..384f252 100644
--- a/stuart-core/src/parse/parser.rs
+++ b/stuart-core/src/parse/parser.rs
@@ -32,6 +32,13 @@ impl<'a> Parser<'a> {
         }
     }
 
+    /// Sets the line of the file at which the characters start.
+    pub(crate) fn with_line(mut self, line: u32) -> Self {
+        self.line = line;
+        self.next_line = line;
+        self
+    }
+
     /// Generates a traceback error for the current position.
     pub fn traceback(&self, e: ParseError) -> TracebackError<ParseError> {
         TracebackError {
-- 
2.43.0


From fb349b249413153c32fc7a153af174c56a0c6cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:52 +0000
Subject: [PATCH 23/37] fix: publish static files whatever their name

---
 stuart-core/src/fs/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 09f9e3f..c45ec90 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -356,9 +356,10 @@ impl Node {
                 source,
                 ..
             } => {
-                if name != "root.html"
-                    && name != "md.html"
-                    && (config.save_data_files || !name.ends_with(".json"))
+                if parsed_contents.is_ignored()
+                    || name != "root.html"
+                        && name != "md.html"
+                        && (config.save_data_files || !name.ends_with(".json"))
                 {
                     if config.strip_extensions
                         && name.ends_with(".html")
-- 
2.43.0


From 5b820b6e13b6ff753d4a33494953147898ad0c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:52 +0000
Subject: [PATCH 24/37] fix: find the library of a plugin whose name is missing
 or contains hyphens

---
 stuart/src/plugins/source.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stuart/src/plugins/source.rs b/stuart/src/plugins/source.rs
index 77517d5..1582180 100644
--- a/stuart/src/plugins/source.rs
+++ b/stuart/src/plugins/source.rs
@@ -54,16 +54,20 @@ pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, ScriptErro
         });
     }
 
+    let name = get_project_name(&manifest)
+        .ok_or_else(|| ScriptError::CouldNotExecute("<build script>".to_string()))?
+        .replace('-', "_");
+
     #[cfg(target_os = "windows")]
     let target_file = root
         .as_ref()
         .join("target/release")
-        .join(format!("{}.dll", get_project_name(&manifest).unwrap()));
+        .join(format!("{}.dll", name));
     #[cfg(not(target_os = "windows"))]
     let target_file = root
         .as_ref()
         .join("target/release")
-        .join(format!("lib{}.so", get_project_name(&manifest).unwrap()));
+        .join(format!("lib{}.so", name));
 
     Ok(target_file)
 }
-- 
2.43.0


From 5a9beeec292ec3f1847b992072f2c05e3970a8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:52 +0000
Subject: [PATCH 25/37] fix: do not use an error page as a downloaded plugin

---
 stuart/src/plugins/source.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stuart/src/plugins/source.rs b/stuart/src/plugins/source.rs
index 1582180..a43c2c3 100644
--- a/stuart/src/plugins/source.rs
+++ b/stuart/src/plugins/source.rs
@@ -2,6 +2,7 @@
 
 use crate::scripts::ScriptError;
 
+use humphrey::http::StatusCode;
 use humphrey::Client;
 
 use std::fs::{read_dir, read_to_string};
@@ -88,5 +89,9 @@ pub fn download_plugin(url: &str) -> Option<Vec<u8>> {
     let mut client = Client::new();
     let response = client.get(url).ok()?.with_redirects(true).send().ok()?;
 
-    Some(response.body)
+    if response.status_code == StatusCode::OK {
+        Some(response.body)
+    } else {
+        None
+    }
 }
-- 
2.43.0


From 66bda4e58127c37d3fa3792f1394e726abcbced5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 26/37] fix: render the body of ifle when its arguments are
 equal

---
 stuart-core/src/functions/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart-core/src/functions/mod.rs b/stuart-core/src/functions/mod.rs
index a053946..597bae9 100644
--- a/stuart-core/src/functions/mod.rs
+++ b/stuart-core/src/functions/mod.rs
@@ -34,7 +34,7 @@ pub mod parsers {
         ifgt, IfGt, >;
         ifge, IfGe, >=;
         iflt, IfLt, <;
-        ifle, IfLe, <;
+        ifle, IfLe, <=;
     ];
 }
 
-- 
2.43.0


From 2985a6e9f7ee4e1ebfa5cff026efb70e051a8337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 27/37] fix: compare numbers without truncating them

---
 stuart-core/src/functions/mod.rs        | 12 ++++++------
 stuart-core/src/functions/parsers/if.rs |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/stuart-core/src/functions/mod.rs b/stuart-core/src/functions/mod.rs
index 597bae9..4ae6e67 100644
--- a/stuart-core/src/functions/mod.rs
+++ b/stuart-core/src/functions/mod.rs
@@ -89,8 +89,8 @@ enum Input {
     Variable(String),
     /// A string literal.
     String(String),
-    /// An integer literal.
-    Integer(i32),
+    /// A number.
+    Number(f64),
 }
 
 impl Input {
@@ -101,7 +101,7 @@ impl Input {
         match self {
             Input::Variable(name) => match scope.get_variable(name) {
                 Some(Value::String(s)) => Some(Input::String(s)),
-                Some(Value::Number(i)) => Some(Input::Integer(i as i32)),
+                Some(Value::Number(n)) => Some(Input::Number(n)),
                 _ => None,
             },
             x => Some(x.clone()),
@@ -114,7 +114,7 @@ impl PartialEq for Input {
         match (self, other) {
             (Self::Variable(l0), Self::Variable(r0)) => l0 == r0,
             (Self::String(l0), Self::String(r0)) => l0 == r0,
-            (Self::Integer(l0), Self::Integer(r0)) => l0 == r0,
+            (Self::Number(l0), Self::Number(r0)) => l0 == r0,
             _ => false,
         }
     }
@@ -125,7 +125,7 @@ impl PartialOrd for Input {
         match (self, other) {
             (Self::Variable(_), Self::Variable(_)) => None,
             (Self::String(_), Self::String(_)) => None,
-            (Self::Integer(i), Self::Integer(j)) => i.partial_cmp(j),
+            (Self::Number(i), Self::Number(j)) => i.partial_cmp(j),
             _ => None,
         }
     }
@@ -136,7 +136,7 @@ impl ToString for Input {
         match self {
             Input::Variable(v) => v.clone(),
             Input::String(s) => s.clone(),
-            Input::Integer(i) => i.to_string(),
+            Input::Number(n) => n.to_string(),
         }
     }
 }
diff --git a/stuart-core/src/functions/parsers/if.rs b/stuart-core/src/functions/parsers/if.rs
index 7c7679e..5dcb4ec 100644
--- a/stuart-core/src/functions/parsers/if.rs
+++ b/stuart-core/src/functions/parsers/if.rs
@@ -23,14 +23,14 @@ macro_rules! if_parsers {
                         let input_2 = match raw.positional_args.pop().unwrap() {
                             $crate::parse::RawArgument::Variable(v) => $crate::functions::Input::Variable(v),
                             $crate::parse::RawArgument::String(s) => $crate::functions::Input::String(s),
-                            $crate::parse::RawArgument::Integer(i) => $crate::functions::Input::Integer(i),
+                            $crate::parse::RawArgument::Integer(i) => $crate::functions::Input::Number(i.into()),
                             _ => return Err($crate::parse::ParseError::InvalidArgument),
                         };
 
                         let input_1 = match raw.positional_args.pop().unwrap() {
                             $crate::parse::RawArgument::Variable(v) => $crate::functions::Input::Variable(v),
                             $crate::parse::RawArgument::String(s) => $crate::functions::Input::String(s),
-                            $crate::parse::RawArgument::Integer(i) => $crate::functions::Input::Integer(i),
+                            $crate::parse::RawArgument::Integer(i) => $crate::functions::Input::Number(i.into()),
                             _ => return Err($crate::parse::ParseError::InvalidArgument),
                         };
 
-- 
2.43.0


From 201feb3cdf9dc6f1aa6c6f40d4fa9d4d198fa143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 28/37] fix: reject a repeated order argument instead of
 ignoring the first

---
 stuart-core/src/functions/parsers/for.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stuart-core/src/functions/parsers/for.rs b/stuart-core/src/functions/parsers/for.rs
index fce3544..e0c39c7 100644
--- a/stuart-core/src/functions/parsers/for.rs
+++ b/stuart-core/src/functions/parsers/for.rs
@@ -69,7 +69,7 @@ impl FunctionParser for ForParser {
         let mut skip = None;
         let mut limit = None;
         let mut sort_variable = None;
-        let mut sort_order = SortOrder::Asc;
+        let mut sort_order = None;
 
         for (name, arg) in &raw.named_args {
             match name.as_str() {
@@ -102,11 +102,13 @@ impl FunctionParser for ForParser {
                     sort_variable = Some(arg.as_variable().unwrap().to_string());
                 }
                 "order" => {
-                    sort_order = match arg.as_string() {
+                    quiet_assert!(sort_order.is_none())?;
+
+                    sort_order = Some(match arg.as_string() {
                         Some("asc") => SortOrder::Asc,
                         Some("desc") => SortOrder::Desc,
                         _ => return Err(ParseError::InvalidArgument),
-                    };
+                    });
                 }
                 _ => return Err(ParseError::InvalidArgument),
             }
@@ -119,7 +121,7 @@ impl FunctionParser for ForParser {
             skip,
             limit,
             sort_variable,
-            sort_order,
+            sort_order: sort_order.unwrap_or(SortOrder::Asc),
         }))
     }
 }
-- 
2.43.0


From daac6d290c0f0cf43f111278bcf94a0e2a769e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 29/37] fix: print nothing but errors in quiet mode

---
 stuart/src/logger/mod.rs         | 10 ++++++++++
 stuart/src/logger/progress.rs    |  8 +++++++-
 stuart/src/main.rs               |  6 ++++--
 stuart/src/plugins/js/context.rs |  5 +++--
 stuart/src/serve/mod.rs          |  9 +++++----
 5 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/stuart/src/logger/mod.rs b/stuart/src/logger/mod.rs
index 05073fc..7a9ca37 100644
--- a/stuart/src/logger/mod.rs
+++ b/stuart/src/logger/mod.rs
@@ -47,12 +47,22 @@ impl Logger {
         LOGGER.set(self).unwrap();
     }
 
+    /// Returns `true` if only errors should be printed.
+    pub fn is_quiet(&self) -> bool {
+        self.level == LogLevel::Quiet
+    }
+
     /// Returns `true` if the logger has logged anything.
     pub fn has_logged(&self) -> bool {
         self.has_logged.load(Ordering::SeqCst)
     }
 }
 
+/// Returns `true` if there is a global logger which is quiet.
+pub fn is_quiet() -> bool {
+    LOGGER.get().map(Logger::is_quiet).unwrap_or(false)
+}
+
 /// Logs a message.
 ///
 /// The first argument is the verb, which appears in green text.
diff --git a/stuart/src/logger/progress.rs b/stuart/src/logger/progress.rs
index 1179c0d..a8f3d34 100644
--- a/stuart/src/logger/progress.rs
+++ b/stuart/src/logger/progress.rs
@@ -1,5 +1,7 @@
 //! Provides the progress bar logging functionality.
 
+use crate::logger::is_quiet;
+
 use std::io::Write;
 use termcolor::{BufferWriter, Color, ColorChoice, ColorSpec, WriteColor};
 
@@ -25,6 +27,10 @@ impl Progress {
 
     /// Prints the current state of the progress bar.
     pub fn print(&self) {
+        if is_quiet() {
+            return;
+        }
+
         let writer = BufferWriter::stderr(ColorChoice::Always);
         let mut buffer = writer.buffer();
 
@@ -64,7 +70,7 @@ impl Iterator for Progress {
         self.current += 1;
         self.print();
 
-        if self.current == self.total {
+        if self.current == self.total && !is_quiet() {
             println!();
         }
 
diff --git a/stuart/src/main.rs b/stuart/src/main.rs
index a269842..bb6fdcd 100644
--- a/stuart/src/main.rs
+++ b/stuart/src/main.rs
@@ -19,7 +19,7 @@ mod test;
 
 use crate::build::StuartContext;
 use crate::error::StuartError;
-use crate::logger::{LogLevel, Logger, Progress, LOGGER};
+use crate::logger::{is_quiet, LogLevel, Logger, Progress, LOGGER};
 
 use clap::{App, Arg, ArgMatches, Command};
 
@@ -182,7 +182,9 @@ fn bench(args: &ArgMatches) -> Result<(), Box<dyn StuartError>> {
         progress.next();
     }
 
-    println!();
+    if !is_quiet() {
+        println!();
+    }
 
     LOGGER.get().unwrap().enabled.store(true, Ordering::SeqCst);
 
diff --git a/stuart/src/plugins/js/context.rs b/stuart/src/plugins/js/context.rs
index c1e77e6..9f13622 100644
--- a/stuart/src/plugins/js/context.rs
+++ b/stuart/src/plugins/js/context.rs
@@ -58,8 +58,9 @@ pub fn set_variable<'s>(
     let json_value = super::json::js_to_json(value, scope);
 
     if json_value.is_none() {
-        println!(
-            "warning(js): attempted to set variable `{}` to `undefined`",
+        log!(
+            "Warning",
+            "JavaScript attempted to set variable `{}` to `undefined`",
             key
         );
         return;
diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index 9b2f886..7267509 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -2,7 +2,7 @@
 
 use crate::build::StuartContext;
 use crate::error::StuartError;
-use crate::logger::LOGGER;
+use crate::logger::{is_quiet, LOGGER};
 
 use humphrey::http::headers::HeaderType;
 use humphrey::http::mime::MimeType;
@@ -112,7 +112,9 @@ fn build_watcher(
                 continue;
             }
 
-            println!();
+            if !is_quiet() {
+                println!();
+            }
 
             if p.ends_with("stuart.toml") {
                 log!(
@@ -125,8 +127,7 @@ fn build_watcher(
             log!(
                 "Detected",
                 "change at {}, rebuilding",
-                p.to_string_lossy()
-                    .trim_start_matches("\\\\?\\")
+                p.to_string_lossy().trim_start_matches("\\\\?\\")
             );
 
             if let Err(e) = ctx.build() {
-- 
2.43.0


From 1989230d6ab284cb4501fce96786016384a15c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 30/37] fix: refuse an output directory which would delete the
 sources of the project

---
 stuart/src/build.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/stuart/src/build.rs b/stuart/src/build.rs
index 79ba589..75f1204 100644
--- a/stuart/src/build.rs
+++ b/stuart/src/build.rs
@@ -7,7 +7,7 @@ use crate::{config, plugins};
 use stuart_core::{Config, Node, Stuart, TracebackError};
 
 use std::fs::{read_to_string, remove_dir_all};
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::time::Instant;
 
 /// Contains information about a successful build.
@@ -36,6 +36,27 @@ pub struct StuartContext {
     pub output: String,
 }
 
+/// Returns `true` if the output directory, the contents of which are deleted by each build, overlaps with the sources
+///   of the project.
+fn contains_sources(project_dir: &Path, output: &str) -> bool {
+    let output = project_dir.join(output);
+    let output = output.canonicalize().unwrap_or_else(|_| {
+        // The output directory does not exist yet, but its parent might.
+        match (
+            output.parent().map(|p| p.canonicalize()),
+            output.file_name(),
+        ) {
+            (Some(Ok(parent)), Some(name)) => parent.join(name),
+            _ => output,
+        }
+    });
+
+    ["stuart.toml", "content", "static", "scripts"]
+        .iter()
+        .map(|source| project_dir.join(source))
+        .any(|source| source.starts_with(&output) || output.starts_with(&source))
+}
+
 impl StuartContext {
     /// Initialises the context.
     pub fn init(
@@ -66,6 +87,10 @@ impl StuartContext {
             },
         };
 
+        if contains_sources(path.parent().unwrap(), output) {
+            return Err("the output directory must not contain the sources of the project".into());
+        }
+
         let plugins = plugins::load(&config.dependencies, path.parent().unwrap())?;
 
         let config: Config = config.into();
-- 
2.43.0


From c18bec06169cef44df25ae067f1faeef60ad48dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:04 +0000
Subject: [PATCH 31/37] fix: keep remote plugins with path-like names inside
 the plugin cache

---
 stuart/src/plugins/mod.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/stuart/src/plugins/mod.rs b/stuart/src/plugins/mod.rs
index c1e7b11..4139e38 100644
--- a/stuart/src/plugins/mod.rs
+++ b/stuart/src/plugins/mod.rs
@@ -15,7 +15,7 @@ use libloading::Library;
 
 use std::collections::HashMap;
 use std::fs::create_dir_all;
-use std::path::Path;
+use std::path::{Path, PathBuf};
 use std::time::Instant;
 
 /// Represents an external function that initializes a plugin.
@@ -141,7 +141,7 @@ fn load_from_source(
 
         Ok(())
     } else if git::exists(src) {
-        let repo_dir = root.join(format!("_build/plugins/{}", name));
+        let repo_dir = cache_dir(root, name)?;
         let repo_dir_string = repo_dir
             .to_string_lossy()
             .to_string()
@@ -183,7 +183,7 @@ fn load_from_source(
     } else if let Some(plugin) = source::download_plugin(src) {
         log!("Downloading", "plugin `{}` from `{}`", name, src);
 
-        let plugin_dir = root.join(format!("_build/plugins/{}", name));
+        let plugin_dir = cache_dir(root, name)?;
         let plugin_path = plugin_dir.join(src.rsplit('/').next().unwrap());
 
         if !plugin_dir.exists() {
@@ -200,6 +200,14 @@ fn load_from_source(
     }
 }
 
+/// Returns the directory in which a remote plugin is cached, which must be directly inside `_build/plugins`.
+fn cache_dir(root: &Path, name: &str) -> Result<PathBuf, String> {
+    match Path::new(name).file_name() {
+        Some(file_name) if file_name == name => Ok(root.join(format!("_build/plugins/{}", name))),
+        _ => Err(format!("invalid plugin name `{}`", name)),
+    }
+}
+
 impl DynamicPluginManager {
     /// Creates a new, empty plugin manager.
     pub fn new() -> Self {
-- 
2.43.0


From 31462891581bcbfc163a1174c9506a57c4942860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 32/37] fix: load plugins in a fixed order

---
 stuart/src/plugins/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stuart/src/plugins/mod.rs b/stuart/src/plugins/mod.rs
index 4139e38..5fbf7e1 100644
--- a/stuart/src/plugins/mod.rs
+++ b/stuart/src/plugins/mod.rs
@@ -55,6 +55,10 @@ pub fn load(
     let mut manager = DynamicPluginManager::new();
 
     if let Some(plugins) = plugins {
+        // The order of a hash map is random, but decides which of two functions with the same name is used.
+        let mut plugins = plugins.iter().collect::<Vec<_>>();
+        plugins.sort();
+
         'outer: for (name, src) in plugins {
             let mut e: Option<Box<dyn StuartError>> = None;
 
-- 
2.43.0


From f83938168ce071f360ff65ad6337708c30273bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 33/37] fix: ignore writes to an output directory given in a
 different form

---
 stuart/src/serve/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index 7267509..00943a7 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -108,7 +108,13 @@ fn build_watcher(
             // Events without a path, for example when some were lost, could be about any file.
             let p = e.path.as_deref().unwrap_or(&path);
 
-            if ignored.iter().any(|ignored| p.starts_with(ignored)) {
+            // The output directory can be given in a different form to that in which the watcher reports it.
+            if ignored.iter().any(|ignored| {
+                p.starts_with(ignored)
+                    || ignored
+                        .canonicalize()
+                        .map_or(false, |ignored| p.starts_with(ignored))
+            }) {
                 continue;
             }
 
-- 
2.43.0


From 2c12d96b4b29ff8ba8d44d06e3d655a6ded8b93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 34/37] fix: count columns from one on every line

---
 stuart-core/src/parse/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart-core/src/parse/parser.rs b/stuart-core/src/parse/parser.rs
index 384f252..05eab95 100644
--- a/stuart-core/src/parse/parser.rs
+++ b/stuart-core/src/parse/parser.rs
@@ -58,7 +58,7 @@ impl<'a> Parser<'a> {
 
             if c == '\n' {
                 self.next_line += 1;
-                self.next_column = 0;
+                self.next_column = 1;
             } else if c != '\r' {
                 self.next_column += 1;
             }
-- 
2.43.0


From fe5f1f266eb078eeede86f8c0ede1aa612d25012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:28 +0000
Subject: [PATCH 35/37] fix: do not load JavaScript plugins whose evaluation
 fails

---
 stuart/src/plugins/js/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index 40b69b3..209d875 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -76,6 +76,11 @@ pub fn load_js_plugin(path: impl AsRef<Path>) -> Result<Plugin, String> {
                 .ok_or("failed to instantiate module")?;
             module.evaluate(scope).ok_or("failed to evaluate module")?;
 
+            // A module which throws an error evaluates to a rejected promise.
+            if module.get_status() == v8::ModuleStatus::Errored {
+                return Err("failed to evaluate module".to_string());
+            }
+
             let key = v8::String::new(scope, "default").unwrap();
             let default = module
                 .get_module_namespace()
-- 
2.43.0


From cd4fdd712db314bd989f7044e0c455e608076e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:13 +0000
Subject: [PATCH 36/37] fix: find the same Cargo project whatever the order of
 a plugin's directory

---
 stuart/src/plugins/source.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stuart/src/plugins/source.rs b/stuart/src/plugins/source.rs
index a43c2c3..0a09a7a 100644
--- a/stuart/src/plugins/source.rs
+++ b/stuart/src/plugins/source.rs
@@ -13,7 +13,11 @@ use std::process::Command;
 pub fn find_cargo_project(root: impl AsRef<Path>, name: &str) -> Option<PathBuf> {
     let root = root.as_ref();
 
-    for entry in read_dir(root).ok()?.flatten() {
+    // The order in which the filesystem lists entries is unspecified.
+    let mut entries = read_dir(root).ok()?.flatten().collect::<Vec<_>>();
+    entries.sort_by_key(|entry| entry.file_name());
+
+    for entry in entries {
         let metadata = entry.metadata().ok()?;
 
         if metadata.is_file()
-- 
2.43.0


From ae8ff9c0ba915fa355f156e1f25ecb085564107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:35 +0000
Subject: [PATCH 37/37] fix: compare texts with each other as ifgt, ifge, iflt
 and ifle say

---
 stuart-core/src/functions/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart-core/src/functions/mod.rs b/stuart-core/src/functions/mod.rs
index 4ae6e67..e663ca5 100644
--- a/stuart-core/src/functions/mod.rs
+++ b/stuart-core/src/functions/mod.rs
@@ -124,7 +124,7 @@ impl PartialOrd for Input {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
         match (self, other) {
             (Self::Variable(_), Self::Variable(_)) => None,
-            (Self::String(_), Self::String(_)) => None,
+            (Self::String(i), Self::String(j)) => i.partial_cmp(j),
             (Self::Number(i), Self::Number(j)) => i.partial_cmp(j),
             _ => None,
         }
-- 
2.43.0

