From 2f586565a86d7969650181422320c57606dd2ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:27 +0000
Subject: [PATCH 01/18] fix: report the error of the first attempt when a
 formula fails

The converter was run a second time to obtain the error, on the state the
failed first attempt had left behind, so that e.g. a formula with a
\newcommand was reported as 'already defined' instead of its real error.
---
 crates/math-core-cli/src/replace.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/crates/math-core-cli/src/replace.rs b/crates/math-core-cli/src/replace.rs
index c9514b5..9d5c05f 100644
--- a/crates/math-core-cli/src/replace.rs
+++ b/crates/math-core-cli/src/replace.rs
@@ -185,18 +185,16 @@ impl<'args> Replacer<'args> {
             // Replace HTML entities
             let replaced = replace_html_entities(&mut self.entity_buffer, content);
             // Convert the content and check for error.
-            let is_error = { f(state, &mut result, replaced, open_typ).is_err() };
-            if is_error {
+            let outcome = f(state, &mut result, replaced, open_typ);
+            if let Err(latex_error) = outcome {
                 // If we stop on error, return the error together with the snippet.
-                // Unfortunately, due to limitations in the borrow checker, we have to run the
-                // conversion again to get the error.
-                // The reason seems to be that the borrow checker cannot tell that when we
-                // return `replaced` here, we are not maintaining the borrow for the next
-                // iteration of the loop.
-                // This is quite unfortunate, but we only have to do this in the error case,
-                // which is hopefully not too common.
+                // Unfortunately, due to limitations in the borrow checker, we have to decode the
+                // snippet again: the borrow checker cannot tell that when we return `replaced`
+                // here, we are not maintaining the borrow for the next iteration of the loop.
+                // The conversion itself must not be repeated, because the failed attempt may have
+                // changed the state (defined commands, for example), so that a second attempt can
+                // fail with a different error.
                 let replaced = replace_html_entities(&mut self.entity_buffer, content);
-                let latex_error = f(state, &mut result, replaced, open_typ).unwrap_err();
                 return Err(ConversionError(
                     start,
                     ConvErrKind::LatexError(*latex_error, replaced),
-- 
2.43.0


From ec8abdf3d8cbce0576b184ca6ee900a3ad6727f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:27 +0000
Subject: [PATCH 02/18] fix: convert every file of a directory in a session of
 its own

In recursive mode equation numbers, labels and globally defined commands
of one file leaked into the next, in the order of the directory listing.
---
 crates/math-core-cli/src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/math-core-cli/src/main.rs b/crates/math-core-cli/src/main.rs
index f395e36..bbe0b09 100644
--- a/crates/math-core-cli/src/main.rs
+++ b/crates/math-core-cli/src/main.rs
@@ -302,6 +302,9 @@ fn convert_html_recursive(
     {
         // In recursive mode we always write back to the files, since dumping
         // multiple files to stdout would not be useful.
+        // Every file is a document of its own: equation numbers, labels and commands
+        // of the files converted before must not show up in it.
+        converter.reset_global_state();
         convert_html(args, path, true, replacer, converter);
     }
 }
-- 
2.43.0


From da59c9bb00516b97591a14b4e118b6685d6f32fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:44 +0000
Subject: [PATCH 03/18] fix: exit with an error if the output cannot be written

The part of the output after the last newline was written when the process
exits, where the standard library ignores errors: with a full disk or a
closed pipe the tool exited with status 0 although the tail was lost.
---
 crates/math-core-cli/src/main.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/math-core-cli/src/main.rs b/crates/math-core-cli/src/main.rs
index bbe0b09..62f80a2 100644
--- a/crates/math-core-cli/src/main.rs
+++ b/crates/math-core-cli/src/main.rs
@@ -177,7 +177,7 @@ fn main() {
                 args.continue_on_error,
             ) {
                 Ok(mathml) => {
-                    println!("{mathml}");
+                    write_stdout(mathml + "\n");
                 }
                 Err(e) => exit_conversion_error(e, None),
             }
@@ -208,7 +208,7 @@ fn convert_and_exit(args: &Args, latex: &str, converter: &mut LatexToMathML) {
         MathDisplay::Inline
     };
     match converter.convert_with_global_state(latex, display) {
-        Ok(mathml) => println!("{}", mathml.mathml),
+        Ok(mathml) => write_stdout(mathml.mathml + "\n"),
         Err(e) => {
             render_ariadne_report(&e, "<input>", latex);
             std::process::exit(2);
@@ -329,10 +329,22 @@ fn convert_html(
                 .unwrap_or_else(|e| exit_io_error(&e));
         }
     } else {
-        print!("{converted}");
+        write_stdout(converted);
     }
 }
 
+/// Write everything to stdout, or exit with an error.
+///
+/// The `print!` family is not used here, because the standard library silently ignores errors
+/// when it flushes the last, partial line at exit.
+fn write_stdout(output: String) {
+    let mut stdout = std::io::stdout().lock();
+    stdout
+        .write_all(output.as_bytes())
+        .and_then(|()| stdout.flush())
+        .unwrap_or_else(|e| exit_io_error(&e));
+}
+
 fn render_ariadne_report(error: &LatexError, source_name: &str, input: &str) {
     let report = error.to_report(source_name, true);
     report
-- 
2.43.0


From 85d01fd8959b6e550381ddacbc117bbb0ba2b7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:07 +0000
Subject: [PATCH 04/18] fix: report every error in recursive mode and visit
 every file once

Errors while listing a directory or looking at an entry were ignored, so
that files were left out with exit status 0, and a missing directory was
accepted silently. Links to a parent directory made the traversal
exponential, and a file reachable through two names was converted twice.
---
 crates/math-core-cli/src/main.rs | 53 ++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 9 deletions(-)

diff --git a/crates/math-core-cli/src/main.rs b/crates/math-core-cli/src/main.rs
index 62f80a2..1653085 100644
--- a/crates/math-core-cli/src/main.rs
+++ b/crates/math-core-cli/src/main.rs
@@ -1,4 +1,5 @@
 use std::{
+    collections::HashSet,
     fs,
     io::{Read, Write},
     path::{Path, PathBuf},
@@ -182,7 +183,13 @@ fn main() {
                 Err(e) => exit_conversion_error(e, None),
             }
         } else if args.recursive {
-            convert_html_recursive(&args, fpath, &mut replacer, &mut converter);
+            convert_html_recursive(
+                &args,
+                fpath,
+                &mut replacer,
+                &mut converter,
+                &mut HashSet::new(),
+            );
         } else {
             convert_html(&args, fpath, args.write, &mut replacer, &mut converter);
         }
@@ -290,16 +297,31 @@ fn convert_html_recursive(
     path: &Path,
     replacer: &mut Replacer,
     converter: &mut LatexToMathML,
+    visited: &mut HashSet<PathBuf>,
 ) {
-    if path.is_dir() {
-        let dir = fs::read_dir(path).unwrap_or_else(|e| exit_io_error(&e));
-        for entry in dir.filter_map(Result::ok) {
-            convert_html_recursive(args, entry.path().as_ref(), replacer, converter)
+    let metadata = match fs::metadata(path) {
+        Ok(metadata) => metadata,
+        // Links that lead nowhere and files that were removed since the directory was listed
+        // are not HTML files, but the path given by the user has to exist.
+        Err(e) if !visited.is_empty() && is_missing(&e) => return,
+        Err(e) => exit_io_error(&e),
+    };
+    let is_html = metadata.is_file() && path.extension().is_some_and(|ext| ext == "html");
+    if !metadata.is_dir() && !is_html {
+        return;
+    }
+    // Links can lead to the same file or directory more than once, or form a cycle.
+    if !visited.insert(fs::canonicalize(path).unwrap_or_else(|e| exit_io_error(&e))) {
+        return;
+    }
+    if metadata.is_dir() {
+        let entries: Vec<_> = fs::read_dir(path)
+            .and_then(Iterator::collect)
+            .unwrap_or_else(|e| exit_io_error(&e));
+        for entry in entries {
+            convert_html_recursive(args, &entry.path(), replacer, converter, visited);
         }
-    } else if path.is_file()
-        && let Some(ext) = path.extension()
-        && ext == "html"
-    {
+    } else {
         // In recursive mode we always write back to the files, since dumping
         // multiple files to stdout would not be useful.
         // Every file is a document of its own: equation numbers, labels and commands
@@ -309,6 +331,19 @@ fn convert_html_recursive(
     }
 }
 
+/// Whether following a path failed because there is nothing at its end.
+fn is_missing(e: &std::io::Error) -> bool {
+    // `ErrorKind::FilesystemLoop` is not stable yet.
+    const LINK_LOOP: i32 = if cfg!(windows) {
+        1921
+    } else if cfg!(any(target_os = "linux", target_os = "android")) {
+        40
+    } else {
+        62
+    };
+    e.kind() == std::io::ErrorKind::NotFound || e.raw_os_error() == Some(LINK_LOOP)
+}
+
 fn convert_html(
     args: &Args,
     fp: &Path,
-- 
2.43.0


From e340b34498092aa8207b2461de700d798234681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:13 +0000
Subject: [PATCH 05/18] fix: never leave a truncated file behind when
 converting in place

The file was truncated before the new content was written, so that a full
disk, an I/O error, a kill or a power failure destroyed the document and
other programs could read it empty or half-written. The content now goes
to a synced temporary file which then replaces the original.
---
 crates/math-core-cli/src/main.rs | 53 ++++++++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 3 deletions(-)

diff --git a/crates/math-core-cli/src/main.rs b/crates/math-core-cli/src/main.rs
index 1653085..f1d43ba 100644
--- a/crates/math-core-cli/src/main.rs
+++ b/crates/math-core-cli/src/main.rs
@@ -359,15 +359,62 @@ fn convert_html(
     }
     if write {
         if original != converted {
-            let mut fp = fs::File::create(fp).unwrap_or_else(|e| exit_io_error(&e));
-            fp.write_all(converted.as_bytes())
-                .unwrap_or_else(|e| exit_io_error(&e));
+            write_file(fp, converted.as_bytes()).unwrap_or_else(|e| exit_io_error(&e));
         }
     } else {
         write_stdout(converted);
     }
 }
 
+/// Replace the content of an existing file, completely or not at all.
+///
+/// The content is first written to a temporary file next to the file, so that an error or an
+/// interruption, at whatever point, never leaves a truncated file behind.
+fn write_file(path: &Path, content: &[u8]) -> std::io::Result<()> {
+    // Keep symbolic links and replace the file they point to.
+    let path = fs::canonicalize(path)?;
+    // Write-protected files are not replaced.
+    let mut file = fs::OpenOptions::new().write(true).open(&path)?;
+    let metadata = file.metadata()?;
+    if !metadata.is_file() {
+        // Pipes and devices cannot be replaced.
+        return file.write_all(content);
+    }
+    drop(file);
+
+    let (temp_path, mut temp) = create_temp_file(path.parent().unwrap_or(&path))?;
+    // Best effort: usually the owner cannot be (and doesn't need to be) changed.
+    #[cfg(unix)]
+    {
+        use std::os::unix::fs::{MetadataExt, fchown};
+        let _ = fchown(&temp, Some(metadata.uid()), Some(metadata.gid()));
+    }
+    let result = temp
+        .write_all(content)
+        .and_then(|()| temp.set_permissions(metadata.permissions()))
+        .and_then(|()| temp.sync_all())
+        .and_then(|()| {
+            drop(temp);
+            fs::rename(&temp_path, &path)
+        });
+    if result.is_err() {
+        let _ = fs::remove_file(&temp_path);
+    }
+    result
+}
+
+/// Create a new file in `dir` under a name that isn't in use.
+fn create_temp_file(dir: &Path) -> std::io::Result<(PathBuf, fs::File)> {
+    let mut counter = 0u32;
+    loop {
+        let path = dir.join(format!(".mathcore-{}-{counter}.tmp", std::process::id()));
+        match fs::File::create_new(&path) {
+            Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => counter += 1,
+            result => return result.map(|file| (path, file)),
+        }
+    }
+}
+
 /// Write everything to stdout, or exit with an error.
 ///
 /// The `print!` family is not used here, because the standard library silently ignores errors
-- 
2.43.0


From d3f16704269e38353ecdcce7f0dadb8960fd1f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:45 +0000
Subject: [PATCH 06/18] fix: reject empty delimiters

An empty delimiter is found everywhere without making progress, so that
the tool kept appending to its output forever.
---
 crates/math-core-cli/src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/math-core-cli/src/main.rs b/crates/math-core-cli/src/main.rs
index f1d43ba..fa5f3b1 100644
--- a/crates/math-core-cli/src/main.rs
+++ b/crates/math-core-cli/src/main.rs
@@ -5,7 +5,7 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use clap::Parser;
+use clap::{Parser, builder::NonEmptyStringValueParser};
 
 use math_core::{LatexError, LatexToMathML, MathDisplay};
 
@@ -30,6 +30,7 @@ struct Args {
         long,
         default_value = "$",
         conflicts_with = "formula",
+        value_parser = NonEmptyStringValueParser::new(),
         value_name = "STR"
     )]
     inline_del: String,
@@ -39,6 +40,7 @@ struct Args {
         long,
         default_value = "$$",
         conflicts_with = "formula",
+        value_parser = NonEmptyStringValueParser::new(),
         value_name = "STR"
     )]
     block_del: String,
@@ -48,6 +50,7 @@ struct Args {
         long,
         conflicts_with = "inline_del",
         requires = "inline_close",
+        value_parser = NonEmptyStringValueParser::new(),
         value_name = "STR"
     )]
     inline_open: Option<String>,
@@ -57,6 +60,7 @@ struct Args {
         long,
         conflicts_with = "inline_del",
         requires = "inline_open",
+        value_parser = NonEmptyStringValueParser::new(),
         value_name = "STR"
     )]
     inline_close: Option<String>,
@@ -66,6 +70,7 @@ struct Args {
         long,
         conflicts_with = "block_del",
         requires = "block_close",
+        value_parser = NonEmptyStringValueParser::new(),
         value_name = "STR"
     )]
     block_open: Option<String>,
@@ -75,6 +80,7 @@ struct Args {
         long,
         conflicts_with = "block_del",
         requires = "block_open",
+        value_parser = NonEmptyStringValueParser::new(),
         value_name = "STR"
     )]
     block_close: Option<String>,
-- 
2.43.0


From bbb6f75c4310762fdf49554a3369f4b9a2d41775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:46 +0000
Subject: [PATCH 07/18] fix: limit the number of tokens queued by expanding
 commands

A command which repeats its argument and expands to itself doubled its argument with each of
the permitted expansions, so that the memory was exhausted long before their number was.
---
 crates/math-core/src/parser.rs      | 18 +++-----
 crates/math-core/src/token_queue.rs | 67 +++++++++++++++++++++--------
 2 files changed, 56 insertions(+), 29 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index ad6ce85..e2b980d 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -2273,21 +2273,16 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 self.count_expansion(span)?;
                 self.read_cmd_args(num_args)?;
                 self.tokens
-                    .queue_body_substituting(token_stream, &self.state.cmd_args, span);
+                    .queue_body_substituting(token_stream, &self.state.cmd_args, span)
+                    .map_err(|kind| LatexError(span.into(), kind))?;
                 return Ok(Parsed::Expansion);
             }
             Token::CustomCmdRef(source, num_args, _, start, end) => {
                 self.count_expansion(span)?;
                 self.read_cmd_args(num_args)?;
-                if !self.tokens.queue_stored_body_substituting(
-                    source,
-                    start,
-                    end,
-                    &self.state.cmd_args,
-                    span,
-                ) {
-                    return Err(Box::new(LatexError(span.into(), LatexErrKind::Internal)));
-                }
+                self.tokens
+                    .queue_stored_body_substituting(source, start, end, &self.state.cmd_args, span)
+                    .map_err(|kind| LatexError(span.into(), kind))?;
                 return Ok(Parsed::Expansion);
             }
             Token::CustomCmdArgInput(_) => Err(LatexError(
@@ -2321,7 +2316,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 // others are not typeset at all, unlike in LaTeX.
                 self.read_cmd_args(4)?;
                 self.tokens
-                    .queue_arg_in_front(self.state.cmd_args.get(chosen), span);
+                    .queue_arg_in_front(self.state.cmd_args.get(chosen), span)
+                    .map_err(|kind| LatexError(span.into(), kind))?;
                 return Ok(Parsed::Expansion);
             }
             Token::MathChoiceInternal(_, choice) => {
diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index 2447548..582e9c2 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -17,6 +17,13 @@ use crate::{
     token::{EndToken, Span, TokSpan, Token},
 };
 
+/// How many tokens may be buffered at once after queueing the body of a custom command.
+///
+/// A command whose body repeats its argument makes the argument grow with every expansion,
+/// exponentially so if it expands to itself, so the limit on the number of expansions alone
+/// doesn't keep the memory we use within bounds.
+const MAX_QUEUED_TOKENS: usize = 1 << 18;
+
 /// A token queue that allows peeking at the next non-whitespace token.
 ///
 /// This is also where command names are given their meaning: the lexer hands out a
@@ -536,27 +543,30 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
     ///
     /// Always queues at least one token, so that the caller can parse the expansion by
     /// simply taking the next token.
+    ///
+    /// Fails if the buffer would get longer than [`MAX_QUEUED_TOKENS`].
     pub(super) fn queue_body_substituting(
         &mut self,
         tokens: &[Token],
         args: &CmdArgs<'arena>,
         span: Span,
-    ) {
+    ) -> Result<(), LatexErrKind> {
         if tokens.is_empty() {
             self.queue_empty_body(span);
-            return;
+            return Ok(());
         }
-        self.queue.reserve(tokens.len());
+        reserve_tokens(&mut self.queue, tokens.len())?;
         // Queue the token stream in the front in reverse order.
         for tok in tokens.iter().rev() {
             match *tok {
                 Token::CustomCmdArg(arg_num) => {
-                    push_arg_front(&mut self.queue, args.get(arg_num), span);
+                    push_arg_front(&mut self.queue, args.get(arg_num), span)?;
                 }
                 tok => self.queue.push_front(tok.into()),
             }
         }
         self.update_next_non_whitespace();
+        Ok(())
     }
 
     /// Queue the body of a custom command which is kept in one of the stores, as
@@ -566,9 +576,8 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
     /// copied out of its store first: the store and the buffer are separate fields, so both
     /// can be borrowed at once.
     ///
-    /// Returns `false` if the range doesn't name a body in that store, which can only happen
-    /// if something has gone wrong.
-    #[must_use]
+    /// Fails with an internal error if the range doesn't name a body in that store, which can
+    /// only happen if something has gone wrong.
     pub(super) fn queue_stored_body_substituting(
         &mut self,
         source: CmdSource,
@@ -576,20 +585,20 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         end: usize,
         args: &CmdArgs<'arena>,
         span: Span,
-    ) -> bool {
+    ) -> Result<(), LatexErrKind> {
         let Some(body) = self.stores.get_body(source, start, end) else {
-            return false;
+            return Err(LatexErrKind::Internal);
         };
         if body.is_empty() {
             self.queue_empty_body(span);
-            return true;
+            return Ok(());
         }
-        self.queue.reserve(body.len());
+        reserve_tokens(&mut self.queue, body.len())?;
         // Queue the token stream in the front in reverse order.
         for recorded in body.iter().rev() {
             match recorded {
                 RecordedToken::Token(Token::CustomCmdArg(arg_num)) => {
-                    push_arg_front(&mut self.queue, args.get(*arg_num), span);
+                    push_arg_front(&mut self.queue, args.get(*arg_num), span)?;
                 }
                 RecordedToken::Token(tok) => self.queue.push_front((*tok).into()),
                 // A command which the body only refers to by name gets its meaning here, so a
@@ -610,7 +619,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
             }
         }
         self.update_next_non_whitespace();
-        true
+        Ok(())
     }
 
     /// Queue what the body of a custom command with no tokens in it expands to.
@@ -626,9 +635,14 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
 
     /// Queue one argument of a custom command in the front of the buffer, as
     /// [`push_arg_front`] does. Always queues at least one token.
-    pub(super) fn queue_arg_in_front(&mut self, arg: &[QueuedTok<'arena>], span: Span) {
-        push_arg_front(&mut self.queue, arg, span);
+    pub(super) fn queue_arg_in_front(
+        &mut self,
+        arg: &[QueuedTok<'arena>],
+        span: Span,
+    ) -> Result<(), LatexErrKind> {
+        push_arg_front(&mut self.queue, arg, span)?;
         self.update_next_non_whitespace();
+        Ok(())
     }
 
     /// Resolve buffered tokens for commands which have been defined in the meantime.
@@ -941,23 +955,40 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
 /// stands for a single token in the body it is substituted into: a caller which reserved room
 /// for the body would be short by as much as the arguments bring along.
 ///
+/// Fails if the buffer would get longer than [`MAX_QUEUED_TOKENS`].
+///
 /// This is a free function rather than a method so that it can be called while the body being
 /// queued borrows another field of the queue.
 fn push_arg_front<'arena>(
     queue: &mut VecDeque<QueuedTok<'arena>>,
     arg: &[QueuedTok<'arena>],
     span: Span,
-) {
+) -> Result<(), LatexErrKind> {
     if arg.is_empty() {
-        queue.reserve(2);
+        reserve_tokens(queue, 2)?;
         queue.push_front(TokSpan::new(Token::GroupEnd, span).into());
         queue.push_front(TokSpan::new(Token::GroupBegin, span).into());
     } else {
-        queue.reserve(arg.len());
+        reserve_tokens(queue, arg.len())?;
         for queued in arg.iter().rev() {
             queue.push_front(*queued);
         }
     }
+    Ok(())
+}
+
+/// Reserve space in the buffer for the given number of tokens.
+///
+/// Fails if the buffer would get longer than [`MAX_QUEUED_TOKENS`].
+fn reserve_tokens(
+    queue: &mut VecDeque<QueuedTok<'_>>,
+    num_tokens: usize,
+) -> Result<(), LatexErrKind> {
+    if queue.len().saturating_add(num_tokens) > MAX_QUEUED_TOKENS {
+        return Err(LatexErrKind::HardLimitExceeded);
+    }
+    queue.reserve(num_tokens);
+    Ok(())
 }
 
 fn is_not_whitespace(idx: usize, tok: &Token) -> Option<usize> {
-- 
2.43.0


From 830496d1baf42caba79e90856ce44224af16ce72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:25 +0000
Subject: [PATCH 08/18] fix: keep the label of a multline until its last row

A \label in any other row was dropped, and references to it stayed undefined.
---
 crates/math-core/src/parser.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index e2b980d..bdae5f5 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -24,8 +24,8 @@ use crate::{
     color_defs::get_color,
     custom_cmds::RecordedToken,
     environments::{
-        CLOSE_BRACE, CLOSE_BRACKET, CLOSE_PAREN, Env, EnvState, OPEN_BRACE, OPEN_BRACKET,
-        OPEN_PAREN,
+        CLOSE_BRACE, CLOSE_BRACKET, CLOSE_PAREN, Env, EnvState, NumberingMode, OPEN_BRACE,
+        OPEN_BRACKET, OPEN_PAREN,
     },
     error::{DelimiterModifier, LatexErrKind, LatexError, LimitedUsabilityToken, Place},
     global_state::GlobalState,
@@ -1755,7 +1755,14 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         self.arena,
                     ) {
                         Ok(tag) => {
-                            let link_target = numbered_state.label.take();
+                            // An environment whose only number is that of its last row keeps
+                            // the label until then.
+                            let link_target =
+                                if matches!(numbered_state.mode, NumberingMode::OnlyLast) {
+                                    None
+                                } else {
+                                    numbered_state.label.take()
+                                };
                             let label_info = if let Some(tag) = tag {
                                 if let Some(label) = link_target {
                                     self.tokens.stores.global_state.label_map.insert(
-- 
2.43.0


From 88a88eb1330a08f4019f8d7352a11ed7e973b39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:02 +0000
Subject: [PATCH 09/18] fix: limit the nesting depth so that recursive commands
 cannot overflow the stack

---
 crates/math-core/src/parser.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index bdae5f5..f3dcfa1 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -72,8 +72,18 @@ struct ParserState<'arena> {
     /// detecting that, we simply stop after a while, as LaTeX and KaTeX do. How long that
     /// takes is configurable; see [`crate::MaxExpansions`].
     expansions_left: u32,
+    /// How many calls of [`Parser::parse_token`] we are inside of; see [`MAX_NESTING_DEPTH`].
+    nesting_depth: u16,
 }
 
+/// How deeply groups, arguments and environments may be nested.
+///
+/// The parser is recursive, so something has to keep it from overflowing the stack. The limit on
+/// the number of expansions is not enough for that, because every expansion of a recursive
+/// command may open as many groups as there are in its body. TeX has a limit of 255 for groups
+/// alone; a group which is the argument of a command counts twice here.
+const MAX_NESTING_DEPTH: u16 = 512;
+
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
 enum SequenceEnd {
     EndToken(EndToken),
@@ -161,6 +171,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 style,
                 vertical_line_def: None,
                 expansions_left: parser_cfg.max_expansions.0,
+                nesting_depth: 0,
             },
         })
     }
@@ -438,12 +449,20 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         prev_class: Class,
     ) -> ParseResult<(Class, &'arena Node<'arena>)> {
         let mut cur_tokloc = cur_tokloc;
-        loop {
+        if self.state.nesting_depth >= MAX_NESTING_DEPTH {
+            let span = cur_tokloc?.span();
+            return Err(LatexError(span.into(), LatexErrKind::HardLimitExceeded).into());
+        }
+        // There is no need to restore this if there is an error, because that ends the parse.
+        self.state.nesting_depth += 1;
+        let parsed = loop {
             match self.parse_one_token(cur_tokloc, parse_as, prev_class)? {
-                Parsed::Node(class, node) => return Ok((class, node)),
+                Parsed::Node(class, node) => break (class, node),
                 Parsed::Expansion => cur_tokloc = self.next_token(),
             }
-        }
+        };
+        self.state.nesting_depth -= 1;
+        Ok(parsed)
     }
 
     /// Parse one token into a node, or into the first token of its expansion.
-- 
2.43.0


From df504ed1e7f000ca29e7192a48f05357705290fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:52 +0000
Subject: [PATCH 10/18] fix: limit the total number of tokens queued by the
 expansions of a snippet

The limit on the number of tokens buffered at once still let a snippet of 400 bytes, whose command
first doubles its argument and then repeats it with every permitted expansion, take 10 s and 2.5 GB.
---
 crates/math-core/src/token_queue.rs | 41 ++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index 582e9c2..88e8015 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -17,12 +17,16 @@ use crate::{
     token::{EndToken, Span, TokSpan, Token},
 };
 
-/// How many tokens may be buffered at once after queueing the body of a custom command.
+/// How many tokens the expansion of custom commands may queue in one snippet, in addition to
+/// [`QUEUED_TOKENS_PER_EXPANSION`] for each of the permitted expansions.
 ///
 /// A command whose body repeats its argument makes the argument grow with every expansion,
 /// exponentially so if it expands to itself, so the limit on the number of expansions alone
 /// doesn't keep the memory we use within bounds.
-const MAX_QUEUED_TOKENS: usize = 1 << 18;
+const MIN_QUEUED_TOKENS: usize = 1 << 18;
+
+/// See [`MIN_QUEUED_TOKENS`].
+const QUEUED_TOKENS_PER_EXPANSION: usize = 1 << 10;
 
 /// A token queue that allows peeking at the next non-whitespace token.
 ///
@@ -49,6 +53,8 @@ pub(super) struct TokenQueue<'state, 'arena> {
     cmd_names: StringPool,
     lexer_is_eoi: bool,
     next_non_whitespace: usize,
+    /// How many more tokens expansions may queue; see [`MIN_QUEUED_TOKENS`].
+    room: usize,
 }
 
 /// A token in the queue, together with the name of the command it came from.
@@ -199,6 +205,9 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
             cmd_names: StringPool::default(),
             lexer_is_eoi: false,
             next_non_whitespace: 0,
+            room: (parser_cfg.max_expansions.0 as usize)
+                .saturating_mul(QUEUED_TOKENS_PER_EXPANSION)
+                .saturating_add(MIN_QUEUED_TOKENS),
         };
         // Ensure that we have at least one non-whitespace token in the buffer for peeking.
         let idx = tm.load_token_skip_whitespace()?;
@@ -544,7 +553,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
     /// Always queues at least one token, so that the caller can parse the expansion by
     /// simply taking the next token.
     ///
-    /// Fails if the buffer would get longer than [`MAX_QUEUED_TOKENS`].
+    /// Fails if expansions have queued too many tokens; see [`MIN_QUEUED_TOKENS`].
     pub(super) fn queue_body_substituting(
         &mut self,
         tokens: &[Token],
@@ -555,12 +564,12 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
             self.queue_empty_body(span);
             return Ok(());
         }
-        reserve_tokens(&mut self.queue, tokens.len())?;
+        reserve_tokens(&mut self.queue, &mut self.room, tokens.len())?;
         // Queue the token stream in the front in reverse order.
         for tok in tokens.iter().rev() {
             match *tok {
                 Token::CustomCmdArg(arg_num) => {
-                    push_arg_front(&mut self.queue, args.get(arg_num), span)?;
+                    push_arg_front(&mut self.queue, &mut self.room, args.get(arg_num), span)?;
                 }
                 tok => self.queue.push_front(tok.into()),
             }
@@ -593,12 +602,12 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
             self.queue_empty_body(span);
             return Ok(());
         }
-        reserve_tokens(&mut self.queue, body.len())?;
+        reserve_tokens(&mut self.queue, &mut self.room, body.len())?;
         // Queue the token stream in the front in reverse order.
         for recorded in body.iter().rev() {
             match recorded {
                 RecordedToken::Token(Token::CustomCmdArg(arg_num)) => {
-                    push_arg_front(&mut self.queue, args.get(*arg_num), span)?;
+                    push_arg_front(&mut self.queue, &mut self.room, args.get(*arg_num), span)?;
                 }
                 RecordedToken::Token(tok) => self.queue.push_front((*tok).into()),
                 // A command which the body only refers to by name gets its meaning here, so a
@@ -640,7 +649,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         arg: &[QueuedTok<'arena>],
         span: Span,
     ) -> Result<(), LatexErrKind> {
-        push_arg_front(&mut self.queue, arg, span)?;
+        push_arg_front(&mut self.queue, &mut self.room, arg, span)?;
         self.update_next_non_whitespace();
         Ok(())
     }
@@ -955,21 +964,22 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
 /// stands for a single token in the body it is substituted into: a caller which reserved room
 /// for the body would be short by as much as the arguments bring along.
 ///
-/// Fails if the buffer would get longer than [`MAX_QUEUED_TOKENS`].
+/// Fails if expansions have queued too many tokens; see [`MIN_QUEUED_TOKENS`].
 ///
 /// This is a free function rather than a method so that it can be called while the body being
 /// queued borrows another field of the queue.
 fn push_arg_front<'arena>(
     queue: &mut VecDeque<QueuedTok<'arena>>,
+    room: &mut usize,
     arg: &[QueuedTok<'arena>],
     span: Span,
 ) -> Result<(), LatexErrKind> {
     if arg.is_empty() {
-        reserve_tokens(queue, 2)?;
+        reserve_tokens(queue, room, 2)?;
         queue.push_front(TokSpan::new(Token::GroupEnd, span).into());
         queue.push_front(TokSpan::new(Token::GroupBegin, span).into());
     } else {
-        reserve_tokens(queue, arg.len())?;
+        reserve_tokens(queue, room, arg.len())?;
         for queued in arg.iter().rev() {
             queue.push_front(*queued);
         }
@@ -979,14 +989,15 @@ fn push_arg_front<'arena>(
 
 /// Reserve space in the buffer for the given number of tokens.
 ///
-/// Fails if the buffer would get longer than [`MAX_QUEUED_TOKENS`].
+/// Fails if expansions have queued too many tokens; see [`MIN_QUEUED_TOKENS`].
 fn reserve_tokens(
     queue: &mut VecDeque<QueuedTok<'_>>,
+    room: &mut usize,
     num_tokens: usize,
 ) -> Result<(), LatexErrKind> {
-    if queue.len().saturating_add(num_tokens) > MAX_QUEUED_TOKENS {
-        return Err(LatexErrKind::HardLimitExceeded);
-    }
+    *room = room
+        .checked_sub(num_tokens)
+        .ok_or(LatexErrKind::HardLimitExceeded)?;
     queue.reserve(num_tokens);
     Ok(())
 }
-- 
2.43.0


From 04195a06a0a4aff0cc29a37945b6372aed94385b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 11/18] fix: make definitions pay for the tokens they copy and
 look at

A definition looks at every buffered token, and a global one copies the whole chain of \let's it
refers to, each time. A snippet of 100 bytes whose command doubles a \gdef with every permitted
expansion took minutes, and a chain of 4000 \let's with as many \global\let's to its end 500 MB.
---
 crates/math-core/src/custom_cmds.rs |  5 +++++
 crates/math-core/src/parser.rs      | 13 ++++++++-----
 crates/math-core/src/token_queue.rs | 26 +++++++++++++++++++++-----
 3 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/crates/math-core/src/custom_cmds.rs b/crates/math-core/src/custom_cmds.rs
index f3685be..57e7480 100644
--- a/crates/math-core/src/custom_cmds.rs
+++ b/crates/math-core/src/custom_cmds.rs
@@ -91,6 +91,11 @@ impl CustomCmds {
         ))
     }
 
+    /// How many tokens there are in all the bodies together.
+    pub(crate) fn num_tokens(&self) -> usize {
+        self.tokens.len()
+    }
+
     /// Get the body of a command, given the range stored in its [`Token::CustomCmdRef`].
     pub(crate) fn body(&self, start: usize, end: usize) -> Option<&[RecordedToken]> {
         self.tokens.get(start..end)
diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index f3dcfa1..91bcfc8 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -2501,6 +2501,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         if !self
             .tokens
             .define(name, num_args, &body, first_class, replace, false)
+            .map_err(|kind| Box::new(LatexError(name_tokspan.span().into(), kind)))?
         {
             // The name came from an unresolved command, so it cannot be in the store already:
             // the names which are defined are resolved when they are read, and the buffered
@@ -2575,13 +2576,14 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         let mut body_tokspans = Vec::new();
         self.tokens.record_macro_body(&mut body_tokspans)?;
         // `record_macro_body` leaves the closing `}` for us.
-        self.next_token()?;
+        let span = self.next_token()?.span();
         let (body, first_class) = self.tokens.map_recorded_tokens(body_tokspans, num_args)?;
 
         // `\def` never complains about an existing meaning, so it always replaces; `define`
-        // then returns `true` unconditionally.
+        // then never returns `false`.
         self.tokens
-            .define(name, num_args, &body, first_class, true, is_global);
+            .define(name, num_args, &body, first_class, true, is_global)
+            .map_err(|kind| Box::new(LatexError(span.into(), kind)))?;
         Ok(())
     }
 
@@ -2661,9 +2663,10 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         let first_class = token.class();
         let body = [RecordedToken::Token(token)];
         // `\let` never complains about an existing meaning, so it always replaces; `define`
-        // then returns `true` unconditionally.
+        // then never returns `false`.
         self.tokens
-            .define(name, 0, &body, first_class, true, is_global);
+            .define(name, 0, &body, first_class, true, is_global)
+            .map_err(|kind| Box::new(LatexError(span.into(), kind)))?;
         Ok(())
     }
 
diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index 88e8015..e6ecb4f 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -28,6 +28,10 @@ const MIN_QUEUED_TOKENS: usize = 1 << 18;
 /// See [`MIN_QUEUED_TOKENS`].
 const QUEUED_TOKENS_PER_EXPANSION: usize = 1 << 10;
 
+/// A definition has to look at all the tokens which are buffered at that point. This many of them
+/// cost as much as queueing one token does.
+const SCANNED_TOKENS_PER_QUEUED: usize = 1 << 6;
+
 /// A token queue that allows peeking at the next non-whitespace token.
 ///
 /// This is also where command names are given their meaning: the lexer hands out a
@@ -53,7 +57,8 @@ pub(super) struct TokenQueue<'state, 'arena> {
     cmd_names: StringPool,
     lexer_is_eoi: bool,
     next_non_whitespace: usize,
-    /// How many more tokens expansions may queue; see [`MIN_QUEUED_TOKENS`].
+    /// How many more tokens expansions may queue; see [`MIN_QUEUED_TOKENS`]. Definitions use it
+    /// up as well; see [`Self::define`].
     room: usize,
 }
 
@@ -675,6 +680,10 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
     /// which doesn't: `global` says that this particular definition was made global with
     /// `\global`, and [`ParserConfig::global_group`] says that all of them are. Returns `false`
     /// if `replace` is not set and the name is already taken.
+    ///
+    /// What a definition costs in addition to recording its body is paid from the same allowance
+    /// as the tokens which expansions queue, so this fails if there is too little of it left; see
+    /// [`MIN_QUEUED_TOKENS`].
     pub(super) fn define(
         &mut self,
         name: &str,
@@ -683,7 +692,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         first_class: Option<Class>,
         replace: bool,
         is_global: bool,
-    ) -> bool {
+    ) -> Result<bool, LatexErrKind> {
         let is_global = is_global || self.stores.parser_cfg.global_group;
         let source = if is_global {
             CmdSource::Document
@@ -691,16 +700,19 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
             CmdSource::Local
         };
         let stores = &mut self.stores;
+        let mut cost = self.queue.len() / SCANNED_TOKENS_PER_QUEUED;
         if is_global {
             // The body has to outlive the snippet, so anything it refers to in the local store
             // is copied into the store of the global state along with it.
             let local = &stores.local_cmds;
             let document = &mut stores.global_state.custom_cmds;
+            let num_tokens = document.num_tokens() + body.len();
             if replace {
                 document.insert_or_replace_and_copy_local(local, name, num_args, body, first_class);
             } else if !document.insert_and_copy_local(local, name, num_args, body, first_class) {
-                return false;
+                return Ok(false);
             }
+            cost += document.num_tokens() - num_tokens;
             // A global definition takes effect right away, as it does in TeX, so a local
             // definition of the same name must not go on shadowing it.
             stores.local_cmds.remove(name);
@@ -709,8 +721,12 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
                 .local_cmds
                 .insert_or_replace(name, num_args, body, first_class);
         } else if !stores.local_cmds.insert(name, num_args, body, first_class) {
-            return false;
+            return Ok(false);
         }
+        self.room = self
+            .room
+            .checked_sub(cost)
+            .ok_or(LatexErrKind::HardLimitExceeded)?;
         let store = match source {
             CmdSource::Document => &self.stores.global_state.custom_cmds,
             _ => &self.stores.local_cmds,
@@ -726,7 +742,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
             // "unknown command" for the command we have just defined.
             self.resolve_buffered_unknown_commands();
         }
-        true
+        Ok(true)
     }
 
     /// Update buffered tokens for a command which has just been redefined.
-- 
2.43.0


From cd3172fd4f977e83908d924a0bd5ec7e4c731c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:28 +0000
Subject: [PATCH 12/18] fix: do not search a run of tokens without a character
 class again for each of them

80000 spacing commands in a row (160 KB) took 15 s.
---
 crates/math-core/src/token_queue.rs | 40 ++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index e6ecb4f..8d6f74f 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -57,6 +57,10 @@ pub(super) struct TokenQueue<'state, 'arena> {
     cmd_names: StringPool,
     lexer_is_eoi: bool,
     next_non_whitespace: usize,
+    /// A part of the buffer which is known to hold no token with a character class, as the
+    /// distances of its end and its start from the end of the buffer. Without it, a run of
+    /// tokens without a class, such as spaces, would be searched again for each of them.
+    classless: (usize, usize),
     /// How many more tokens expansions may queue; see [`MIN_QUEUED_TOKENS`]. Definitions use it
     /// up as well; see [`Self::define`].
     room: usize,
@@ -210,6 +214,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
             cmd_names: StringPool::default(),
             lexer_is_eoi: false,
             next_non_whitespace: 0,
+            classless: (0, 0),
             room: (parser_cfg.max_expansions.0 as usize)
                 .saturating_mul(QUEUED_TOKENS_PER_EXPANSION)
                 .saturating_add(MIN_QUEUED_TOKENS),
@@ -270,6 +275,8 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
             let result = predicate(starting_len + non_skipped_offset, tok.token());
             let is_eoi = matches!(tok.token(), Token::Eoi);
             self.queue.push_back(tok);
+            self.classless.0 += 1;
+            self.classless.1 += 1;
             if let Some(result) = result {
                 return Ok(Some(result));
             }
@@ -383,6 +390,34 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         }
     }
 
+    /// Same as [`Self::find_or_load_after_next`] for tokens with a character class, but makes use
+    /// of what [`Self::classless`] knows about the buffer.
+    fn find_or_load_class_after_next(&mut self) -> Result<Option<(usize, Class)>, Box<LatexError>> {
+        let len = self.queue.len();
+        // Skip `next_non_whitespace`.
+        let start = (self.next_non_whitespace + 1).min(len);
+        let (end, known) = self.classless;
+        let first = if (end..=known).contains(&(len - start)) {
+            len - end
+        } else {
+            self.classless = (len - start, len - start);
+            start
+        };
+        let found = self
+            .queue
+            .range(first..)
+            .enumerate()
+            .find_map(|(idx, ts)| has_class(first + idx, ts.token()));
+        if let Some((idx, _)) = found {
+            self.classless.0 = len - idx;
+            return Ok(found);
+        }
+        let found = self.load_token(has_class)?;
+        let len = self.queue.len();
+        self.classless.0 = found.map_or(0, |(idx, _)| len - idx);
+        Ok(found)
+    }
+
     /// Peek at the second non-whitespace token without consuming it.
     pub(super) fn peek_second(&mut self) -> Result<&TokSpan, Box<LatexError>> {
         if let Some(tok) = self
@@ -403,7 +438,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         // First check the common case where the next token is already a token with class.
         if let Some(class) = self.peek().token().class() {
             Ok((self.next_non_whitespace, class))
-        } else if let Some(class) = self.find_or_load_after_next(has_class)? {
+        } else if let Some(class) = self.find_or_load_class_after_next()? {
             Ok(class)
         } else {
             debug_assert!(self.lexer_is_eoi, "peek_class_token called without ensure");
@@ -528,6 +563,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
 
     /// Update the `next_non_whitespace` position after tokens have been queued in front.
     fn update_next_non_whitespace(&mut self) {
+        self.classless = (0, 0);
         if let Some(pos) = self.find_next_non_whitespace() {
             self.next_non_whitespace = pos;
         } else {
@@ -665,6 +701,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
     /// the token of a command which is only defined once we get to it: the token right after
     /// a `\newcommand` has already been read by then.
     pub(super) fn resolve_buffered_unknown_commands(&mut self) {
+        self.classless = (0, 0);
         for queued in &mut self.queue {
             if let Token::UnresolvedCommand(name) = *queued.token()
                 && let Some(tok) = self.stores.resolve_command(self.cmd_names.get(name))
@@ -752,6 +789,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
     /// its redefinition would otherwise still refer to the old definition. We recognize the
     /// tokens by the name they came from, because the old definition can be any token at all.
     pub(super) fn resolve_buffered_redefined_command(&mut self, name: &str, tok: Token) {
+        self.classless = (0, 0);
         for queued in &mut self.queue {
             if queued.name() == Some(name) {
                 *queued = queued.with_token(tok);
-- 
2.43.0


From d0543931b05e50f725769f41439b5416a5e21fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 13/18] fix: let the JavaScript converter stay usable when a
 snippet of a batch cannot be read

---
 crates/math-core-wasm/src/lib.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/math-core-wasm/src/lib.rs b/crates/math-core-wasm/src/lib.rs
index 51d31a4..b4ac887 100644
--- a/crates/math-core-wasm/src/lib.rs
+++ b/crates/math-core-wasm/src/lib.rs
@@ -113,11 +113,12 @@ extern "C" {
     #[wasm_bindgen(typescript_type = "MathSnippet")]
     pub type MathSnippet;
 
-    #[wasm_bindgen(method, getter)]
-    fn latex(this: &MathSnippet) -> String;
+    // An exception which is not caught here would leave the converter borrowed forever.
+    #[wasm_bindgen(method, getter, catch)]
+    fn latex(this: &MathSnippet) -> Result<String, JsValue>;
 
-    #[wasm_bindgen(method, getter)]
-    fn displayStyle(this: &MathSnippet) -> bool;
+    #[wasm_bindgen(method, getter, catch)]
+    fn displayStyle(this: &MathSnippet) -> Result<bool, JsValue>;
 
     #[wasm_bindgen(typescript_type = "MathCoreOptions")]
     pub type MathCoreOptions;
@@ -321,11 +322,11 @@ impl LatexToMathML {
     /// The conversion does not touch the global state; it uses a fresh state for the whole batch.
     #[cfg(feature = "all-conversions")]
     #[wasm_bindgen(unchecked_return_type = "string[]")]
-    pub fn convert_all(&self, snippets: Vec<MathSnippet>) -> Result<JsValue, LatexError> {
+    pub fn convert_all(&self, snippets: Vec<MathSnippet>) -> Result<JsValue, JsValue> {
         let owned = snippets
             .into_iter()
-            .map(|s| (s.latex(), s.displayStyle()))
-            .collect::<Vec<_>>();
+            .map(|s| Ok((s.latex()?, s.displayStyle()?)))
+            .collect::<Result<Vec<_>, JsValue>>()?;
         let inputs: Vec<(&str, MathDisplay)> = owned
             .iter()
             .map(|(latex, display)| {
-- 
2.43.0


From f3905ac1d2fe7f27850015994a377a1995894dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 14/18] fix: end a style, a color or an infix fraction at the
 end of its table cell

---
 crates/math-core/src/environments.rs |   4 +
 crates/math-core/src/parser.rs       | 164 ++++++++++++++++++---------
 2 files changed, 116 insertions(+), 52 deletions(-)

diff --git a/crates/math-core/src/environments.rs b/crates/math-core/src/environments.rs
index f4d4796..ca8e7b8 100644
--- a/crates/math-core/src/environments.rs
+++ b/crates/math-core/src/environments.rs
@@ -151,6 +151,7 @@ impl Env {
             allow_columns: self.allows_columns(),
             meaningful_newlines: !matches!(self, Env::Equation | Env::EquationStar),
             allow_hlines: self.allows_hlines(),
+            cell_depth: 0,
             numbered: self.get_numbered_env_state(),
         }
     }
@@ -322,6 +323,9 @@ pub struct EnvState<'arena> {
     /// `true` if we are inside an environment where `\hline` and `\hdashline` are allowed
     /// (directly after `\\` or at the start of the environment).
     pub allow_hlines: bool,
+    /// How deeply the tokens are nested which make up the cells of the environment; `&` and `\\`
+    /// only separate cells there.
+    pub cell_depth: u16,
     pub numbered: Option<NumberedEnvState<'arena>>,
 }
 
diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 91bcfc8..9327252 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -61,6 +61,8 @@ struct ParserState<'arena> {
     /// This is currently a hack, which should be replaced by a more robust solution later.
     right_boundary_hack: bool,
     env: EnvState<'arena>,
+    /// A `&` or `\\` which has ended a style or color, but which is yet to end its cell.
+    separator: Option<(Class, &'arena Node<'arena>)>,
     /// The current style (display/text/script/scriptscript) for the surrounding group.
     style: Style,
     /// The current meaning of the character `|`, which `\set`, `\Set` and `\Braket` change.
@@ -84,6 +86,9 @@ struct ParserState<'arena> {
 /// alone; a group which is the argument of a command counts twice here.
 const MAX_NESTING_DEPTH: u16 = 512;
 
+/// The numerator of an infix fraction, whether it has a line, and its delimiters.
+type InfixFrac<'arena> = (Vec<&'arena Node<'arena>>, bool, Option<InfixDelim>);
+
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
 enum SequenceEnd {
     EndToken(EndToken),
@@ -168,6 +173,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 transform: None,
                 right_boundary_hack: false,
                 env: EnvState::default(),
+                separator: None,
                 style,
                 vertical_line_def: None,
                 expansions_left: parser_cfg.max_expansions.0,
@@ -204,6 +210,36 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         self.parse_sequence(sequence_end, prev_class, keep_end_token)
     }
 
+    /// Parse the rest of the current sequence, which ends together with the cell we are in, if
+    /// we are directly in one. The end token is not consumed.
+    fn parse_rest_of_sequence(
+        &mut self,
+        parse_as: ParseAs,
+        span: Span,
+        prev_class: Class,
+    ) -> ParseResult<Vec<&'arena Node<'arena>>> {
+        let old_cell_depth = self.state.env.cell_depth;
+        if self.at_cell_level() {
+            self.state.env.cell_depth += 1;
+        }
+        let content = self.parse_sequence_if_in_sequence(
+            parse_as,
+            span,
+            SequenceEnd::AnyEndToken,
+            prev_class,
+            true,
+        )?;
+        self.state.env.cell_depth = old_cell_depth;
+        Ok(content)
+    }
+
+    /// Whether the token being parsed belongs to a cell of the current environment directly, and
+    /// not to a group or an argument in it.
+    #[inline]
+    fn at_cell_level(&self) -> bool {
+        self.state.nesting_depth == self.state.env.cell_depth
+    }
+
     /// Parse a sequence of tokens until the given end token is encountered.
     ///
     /// If `keep_end_token` is set to `true`, this function does not consume the end token.
@@ -216,16 +252,20 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         keep_end_token: bool,
     ) -> ParseResult<Vec<&'arena Node<'arena>>> {
         let mut nodes = Vec::new();
-        let mut infix_frac: Option<(Vec<&'arena Node<'arena>>, bool, Option<InfixDelim>)> = None;
+        let mut infix_frac: Option<InfixFrac<'arena>> = None;
+        // Where the current cell starts, if this is the content of a table.
+        let mut cell_start = 0;
 
         let mut prev_class = prev_class;
         let old_tf = self.state.transform;
         let old_style = self.state.style;
 
         // Because we don't want to consume the end token, we just peek here.
-        while !sequence_end.matches(self.tokens.peek().token()) {
+        while self.state.separator.is_some() || !sequence_end.matches(self.tokens.peek().token()) {
+            let (class, target) = if let Some(separator) = self.state.separator.take() {
+                separator
             // Check whether we need to collect letters.
-            let (class, target) = if let Some(collected) = self.merge_and_transform_letters()? {
+            } else if let Some(collected) = self.merge_and_transform_letters()? {
                 collected
             } else {
                 // Get the current token.
@@ -235,6 +275,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         tokloc,
                         sequence_end,
                         &mut nodes,
+                        cell_start,
                         &mut infix_frac,
                     )? {
                         ControlFlow::SkipToken => continue,
@@ -246,6 +287,28 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             };
             prev_class = class;
 
+            if matches!(target, Node::ColumnSeparator | Node::RowSeparator { .. }) {
+                if matches!(sequence_end, SequenceEnd::AnyEndToken) {
+                    // A style or a color ends together with the cell it is in.
+                    self.state.separator = Some((class, target));
+                    break;
+                }
+                // The separator has no scripts, and a fraction ends together with the cell it is in.
+                if let Some(infix_frac) = infix_frac.take() {
+                    let denominator = nodes.split_off(cell_start);
+                    nodes.push(self.make_infix_frac(infix_frac, &denominator));
+                    self.state.style = old_style;
+                }
+                nodes.push(target);
+                cell_start = nodes.len();
+                continue;
+            }
+
+            if self.state.separator.is_some() {
+                nodes.push(target);
+                continue;
+            }
+
             // Check if there are any superscripts or subscripts following the parsed node.
             let bounds = self.get_bounds(None)?.ensure_no_explicit_limits()?;
 
@@ -271,37 +334,9 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             // If there are superscripts or subscripts, we need to wrap the node we just got into
             // one of the node types for superscripts and subscripts.
         }
-        if let Some((numerator, with_line, delim)) = infix_frac {
-            let denominator = mem::replace(&mut nodes, Vec::with_capacity(1));
-            let (lt_value, lt_unit) = if with_line {
-                Length::none().into_parts()
-            } else {
-                Length::zero().into_parts()
-            };
-            let frac = self.commit(Node::Frac {
-                num: node_vec_to_node(self.arena, &numerator, false),
-                denom: node_vec_to_node(self.arena, &denominator, false),
-                lt_value,
-                lt_unit,
-                attr: None,
-            });
-            let node = if let Some(delim) = delim {
-                let (open, close) = match delim {
-                    InfixDelim::Paren => (OPEN_PAREN, CLOSE_PAREN),
-                    InfixDelim::Brace => (OPEN_BRACE, CLOSE_BRACE),
-                    InfixDelim::Brack => (OPEN_BRACKET, CLOSE_BRACKET),
-                };
-                self.commit(fenced(
-                    self.arena,
-                    vec![frac],
-                    Some(open),
-                    Some(close),
-                    None,
-                ))
-            } else {
-                frac
-            };
-            nodes.push(node);
+        if let Some(infix_frac) = infix_frac {
+            let denominator = nodes.split_off(cell_start);
+            nodes.push(self.make_infix_frac(infix_frac, &denominator));
         }
         if !keep_end_token {
             // Discard the end token.
@@ -312,13 +347,49 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         Ok(nodes)
     }
 
+    /// Make the node for an infix command such as `\over`, whose denominator is now complete.
+    fn make_infix_frac(
+        &mut self,
+        (numerator, with_line, delim): InfixFrac<'arena>,
+        denominator: &[&'arena Node<'arena>],
+    ) -> &'arena Node<'arena> {
+        let (lt_value, lt_unit) = if with_line {
+            Length::none().into_parts()
+        } else {
+            Length::zero().into_parts()
+        };
+        let frac = self.commit(Node::Frac {
+            num: node_vec_to_node(self.arena, &numerator, false),
+            denom: node_vec_to_node(self.arena, denominator, false),
+            lt_value,
+            lt_unit,
+            attr: None,
+        });
+        let Some(delim) = delim else {
+            return frac;
+        };
+        let (open, close) = match delim {
+            InfixDelim::Paren => (OPEN_PAREN, CLOSE_PAREN),
+            InfixDelim::Brace => (OPEN_BRACE, CLOSE_BRACE),
+            InfixDelim::Brack => (OPEN_BRACKET, CLOSE_BRACKET),
+        };
+        self.commit(fenced(
+            self.arena,
+            vec![frac],
+            Some(open),
+            Some(close),
+            None,
+        ))
+    }
+
     #[inline]
     fn handle_tokens_without_output(
         &mut self,
         tokspan: &TokSpan,
         sequence_end: SequenceEnd,
         collected_nodes: &mut Vec<&'arena Node<'arena>>,
-        infix_frac: &mut Option<(Vec<&'arena Node<'arena>>, bool, Option<InfixDelim>)>,
+        cell_start: usize,
+        infix_frac: &mut Option<InfixFrac<'arena>>,
     ) -> ParseResult<ControlFlow> {
         let span = tokspan.span().into();
         let result: Result<(), LatexError> = match *tokspan.token() {
@@ -332,7 +403,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::InfixGenFrac { with_line, delim } => {
                 if infix_frac.is_none() {
-                    *infix_frac = Some((mem::take(collected_nodes), with_line, delim));
+                    *infix_frac = Some((collected_nodes.split_off(cell_start), with_line, delim));
                     // The numerator was already parsed in the surrounding style (we only
                     // learn it's a fraction here), but we can at least shrink the style
                     // for the denominator. `parse_sequence` restores the style on exit.
@@ -1499,6 +1570,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
 
                 let old_style = mem::replace(&mut self.state.style, env.style());
                 let old_env_state = mem::replace(&mut self.state.env, env.new_state());
+                self.state.env.cell_depth = self.state.nesting_depth + 1;
 
                 let content = self.arena.push_slice(&self.parse_sequence_if_in_sequence(
                     parse_as,
@@ -1706,7 +1778,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 ));
             }
             Token::NewColumn => {
-                if self.state.env.allow_columns {
+                if self.state.env.allow_columns && self.at_cell_level() {
                     class = Class::Close;
                     Ok(Node::ColumnSeparator)
                 } else {
@@ -1735,7 +1807,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::NewLine => 'new_line: {
                 class = Class::Open;
-                if !self.state.env.meaningful_newlines {
+                if !self.state.env.meaningful_newlines || !self.at_cell_level() {
                     // FIXME: Return something other than a row here, so that we can avoid creating
                     //       empty rows in places where they are not needed.
                     break 'new_line Ok(Node::EMPTY_ROW);
@@ -1987,13 +2059,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     };
                     color
                 };
-                let content = self.parse_sequence_if_in_sequence(
-                    parse_as,
-                    span,
-                    SequenceEnd::AnyEndToken,
-                    prev_class,
-                    true,
-                )?;
+                let content = self.parse_rest_of_sequence(parse_as, span, prev_class)?;
                 Ok(Node::Row {
                     nodes: self.arena.push_slice(&content),
                     attrs: RowAttrs {
@@ -2026,13 +2092,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::Style(style) => {
                 let old_style = mem::replace(&mut self.state.style, style);
-                let content = self.parse_sequence_if_in_sequence(
-                    parse_as,
-                    span,
-                    SequenceEnd::AnyEndToken,
-                    prev_class,
-                    true,
-                )?;
+                let content = self.parse_rest_of_sequence(parse_as, span, prev_class)?;
                 self.state.style = old_style;
                 Ok(Node::Row {
                     nodes: self.arena.push_slice(&content),
-- 
2.43.0


From 0173ecdae120b6795372d8ccaae38050c12b7181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:37 +0000
Subject: [PATCH 15/18] fix: show what was entered in the playground before its
 module was loaded

---
 playground/main.js | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/playground/main.js b/playground/main.js
index 549da59..3876b05 100644
--- a/playground/main.js
+++ b/playground/main.js
@@ -6,6 +6,8 @@ let cachedIsBlock = true; // default value
  * @type {LatexToMathML | null}
  */
 let cachedConverter = null;
+// Whether the WASM module has been loaded
+let moduleLoaded = false;
 
 function initializeCachedValues() {
   // Initialize cached values based on current DOM state
@@ -28,6 +30,10 @@ function updateIsBlockCache() {
  * @return {boolean} True if the config was successfully updated, false otherwise
  */
 function updateConfig() {
+  if (!moduleLoaded) {
+    return false; // The config is read again once the module has been loaded
+  }
+
   const prettyRadio = document.querySelector(
     '#prettyprint input[type="radio"]:checked',
   );
@@ -396,7 +402,11 @@ function formatErrorHtml(...args) {
 document.addEventListener("DOMContentLoaded", () => {
   init().then(async () => {
     console.log("WASM module initialized");
-    updateConfig(); // Initial config setup
+    moduleLoaded = true;
+    // Initial config setup; the fields may have been filled in in the meantime
+    if (updateConfig()) {
+      updateOutput();
+    }
     await loadFromUrl(); // Load content from URL hash if available
   });
 
@@ -409,6 +419,9 @@ document.addEventListener("DOMContentLoaded", () => {
   const configField = document.getElementById("configField");
 
   function updateOutput() {
+    if (cachedConverter === null) {
+      return; // There is no usable config yet
+    }
     const input = inputField.value;
     try {
       const output = cachedConverter.convert_with_local_state(
-- 
2.43.0


From 4c1a6cdd7b8d5e1f4edfcf3d594cc45dcd3dd112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:38 +0000
Subject: [PATCH 16/18] fix: make the playground's link stand for one moment,
 that of the last click

---
 playground/main.js | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/playground/main.js b/playground/main.js
index 3876b05..fe3b9b7 100644
--- a/playground/main.js
+++ b/playground/main.js
@@ -76,6 +76,9 @@ function isBlock() {
   return cachedIsBlock;
 }
 
+// Number of links that have been requested
+let linkCount = 0;
+
 async function generateLink() {
   const inputField = document.getElementById("inputField");
   console.assert(inputField instanceof HTMLTextAreaElement);
@@ -86,25 +89,32 @@ async function generateLink() {
     return;
   }
 
-  // Compress the content
-  const compressedContent = await compressText(content);
-
-  // Encode content to base64
-  const encodedContent = uint8ArrayToBase64Url(compressedContent);
-
-  // Generate the URL
-  const currentUrl = window.location.origin + window.location.pathname;
+  // Read the options before waiting for anything, so that they belong to the content
   /** @type {HTMLFormElement} */
   const optionsForm = document.getElementById("optionsForm");
-  let generatedUrl = `${currentUrl}#input:${encodedContent}`;
+  let encodedOptions = "";
   for (let key of ["math-font", "prettyprint", "displaystyle"]) {
     const option = optionsForm.elements.namedItem(key);
     if (option && option.value !== null && option.value !== "") {
       const value = encodeURIComponent(option.value);
-      generatedUrl += `&${key}:${value}`;
+      encodedOptions += `&${key}:${value}`;
     }
   }
 
+  // Compress the content
+  const linkNumber = ++linkCount;
+  const compressedContent = await compressText(content);
+  if (linkNumber !== linkCount) {
+    return; // A newer link has been requested in the meantime
+  }
+
+  // Encode content to base64
+  const encodedContent = uint8ArrayToBase64Url(compressedContent);
+
+  // Generate the URL
+  const currentUrl = window.location.origin + window.location.pathname;
+  const generatedUrl = `${currentUrl}#input:${encodedContent}${encodedOptions}`;
+
   // Display the link
   document.getElementById("generatedLink").innerText = generatedUrl;
   document.getElementById("linkContainer").classList.remove("hidden");
-- 
2.43.0


From aea161eaf7c873f8d3b19d1927081130d9aec23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:38 +0000
Subject: [PATCH 17/18] fix: keep a byte order mark in the playground's links

---
 playground/main.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/playground/main.js b/playground/main.js
index fe3b9b7..2aa4fa6 100644
--- a/playground/main.js
+++ b/playground/main.js
@@ -219,7 +219,8 @@ async function decompressText(compressedData) {
   // Read and decode the result
   const response = new Response(decompressedStream);
   const arrayBuffer = await response.arrayBuffer();
-  const decoder = new TextDecoder();
+  // Keep a byte order mark, which is part of the text
+  const decoder = new TextDecoder("utf-8", { ignoreBOM: true });
   return decoder.decode(arrayBuffer);
 }
 
-- 
2.43.0


From 488efcfb373808daf0c5aa875215c3fdef29cc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:38 +0000
Subject: [PATCH 18/18] fix: ignore a playground link as a whole if its options
 cannot be decoded

---
 playground/main.js | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/playground/main.js b/playground/main.js
index 2aa4fa6..bdf905e 100644
--- a/playground/main.js
+++ b/playground/main.js
@@ -130,19 +130,23 @@ async function loadFromUrl() {
     try {
       const compressedContent = base64UrlToUint8Array(encodedContent);
       const decodedContent = await decompressText(compressedContent);
+      // Decode everything before changing anything: the link may be broken
+      const options = params.map((param) => {
+        const [key, value] = param.split(":");
+        return [key, decodeURIComponent(value)];
+      });
       const inputField = document.getElementById("inputField");
       console.assert(inputField instanceof HTMLTextAreaElement);
       inputField.value = decodedContent;
 
       /** @type {HTMLFormElement} */
       const optionsForm = document.getElementById("optionsForm");
-      for (let param of params) {
-        const [key, value] = param.split(":");
+      for (const [key, value] of options) {
         const item = optionsForm.elements.namedItem(key);
         // set form elements based on given parameters,
         // and dispatch event to update the output
         if (item) {
-          item.value = decodeURIComponent(value);
+          item.value = value;
           if (item instanceof HTMLElement) {
             item.dispatchEvent(new Event("change", { bubbles: true }));
           } else if (item instanceof RadioNodeList) {
-- 
2.43.0

