From 03dad569772b025589ef8ffa1cd62796a90199bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 01/14] fix: exit with an error when `scaffold -w` cannot write
 its output

---
 crates/bulloak/src/scaffold.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/bulloak/src/scaffold.rs b/crates/bulloak/src/scaffold.rs
index 89ade96..812befa 100644
--- a/crates/bulloak/src/scaffold.rs
+++ b/crates/bulloak/src/scaffold.rs
@@ -96,7 +96,7 @@ impl Scaffold {
 
         if self.write_files {
             let file = file.with_extension("t.sol");
-            self.write_file(&formatted, &file);
+            self.write_file(&formatted, &file)?;
         } else {
             println!("{formatted}");
         }
@@ -108,7 +108,7 @@ impl Scaffold {
     ///
     /// If the file doesn't exist it will create it. If it exists,
     /// and `--force-write` was not passed, it will skip writing to the file.
-    fn write_file(&self, text: &str, file: &PathBuf) {
+    fn write_file(&self, text: &str, file: &PathBuf) -> anyhow::Result<()> {
         // Don't overwrite files unless `--force-write` was passed.
         if file.exists() && !self.force_write {
             eprintln!(
@@ -120,12 +120,12 @@ impl Scaffold {
                 "    {} The corresponding `.t.sol` file already exists",
                 "=".blue()
             );
-            return;
+            return Ok(());
         }
 
-        if let Err(err) = fs::write(file, text) {
-            eprintln!("{}: {err}", "error".red());
-        };
+        fs::write(file, text)?;
+
+        Ok(())
     }
 
     /// Reports errors that occurred during file processing.
-- 
2.43.0


From a17bbc72c16da1aea3bb5d24071ec1882279f443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 02/14] fix: report unformattable scaffold output instead of
 panicking

---
 crates/foundry/src/scaffold/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/foundry/src/scaffold/mod.rs b/crates/foundry/src/scaffold/mod.rs
index 748ab52..5269bb7 100644
--- a/crates/foundry/src/scaffold/mod.rs
+++ b/crates/foundry/src/scaffold/mod.rs
@@ -18,8 +18,9 @@ pub fn scaffold(text: &str, cfg: &Config) -> anyhow::Result<String> {
     let hir = translate(text, cfg)?;
     let pt = sol::Translator::new(cfg).translate(&hir);
     let source = sol::Formatter::new().emit(pt);
-    let formatted =
-        fmt(&source).expect("should format the emitted solidity code");
+    let formatted = fmt(&source).map_err(|err| {
+        anyhow::anyhow!("could not format the emitted solidity code: {err}")
+    })?;
 
     Ok(formatted)
 }
-- 
2.43.0


From c54adc1a529ac95296a4c1e5c3f5a0cc8bae8811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 03/14] fix: report duplicated identifiers in a deterministic
 order

---
 crates/syntax/src/semantics.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/semantics.rs b/crates/syntax/src/semantics.rs
index 933f501..c19a6eb 100644
--- a/crates/syntax/src/semantics.rs
+++ b/crates/syntax/src/semantics.rs
@@ -134,7 +134,13 @@ impl<'t> SemanticAnalyzer<'t> {
         .unwrap();
 
         // Check for duplicate conditions.
-        for spans in self.identifiers.clone().into_values() {
+        //
+        // The iteration order of the map is arbitrary, so errors are sorted by
+        // the location of the first occurrence.
+        let mut identifiers: Vec<_> =
+            self.identifiers.clone().into_values().collect();
+        identifiers.sort_by_key(|spans| spans[0]);
+        for spans in identifiers {
             if spans.len() > 1 {
                 self.error(
                     // FIXME: This is a patch until we start storing locations
-- 
2.43.0


From 03cfafe2f5b3a394461b6e95be2d3a4f33bd45c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 04/14] fix: compute violation lines from byte offsets

---
 crates/foundry/src/check/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/foundry/src/check/utils.rs b/crates/foundry/src/check/utils.rs
index 9e43487..0747a2f 100644
--- a/crates/foundry/src/check/utils.rs
+++ b/crates/foundry/src/check/utils.rs
@@ -6,7 +6,7 @@ pub fn offset_to_line_column(content: &str, start: usize) -> (usize, usize) {
 
     // first line is `1`
     let mut line_counter = 1;
-    for (offset, c) in content.chars().enumerate() {
+    for (offset, c) in content.char_indices() {
         if c == '\n' {
             line_counter += 1;
         }
-- 
2.43.0


From 161ba9cd9ec5d460a8b16c7d712cbdcd7d8560a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 05/14] fix: `check` blames the tree, not the contract, for
 semantic errors

---
 crates/foundry/src/check/violation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index f132294..57cb0b9 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -126,7 +126,9 @@ fn format_frontend_error(error: &anyhow::Error) -> String {
         error.downcast_ref::<crate::hir::combiner::Error>()
     {
         format!("an error occurred while parsing the tree: {}", error.kind())
-    } else if error.downcast_ref::<bulloak_syntax::semantics::Error>().is_some()
+    } else if error
+        .downcast_ref::<bulloak_syntax::semantics::Errors>()
+        .is_some()
     {
         "at least one semantic error occurred while parsing the tree".to_owned()
     } else {
-- 
2.43.0


From b7de8295441d965c93b8fb1e4f469037d70b24e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 06/14] fix: `check --fix` reports the files it could not load

---
 crates/bulloak/src/check.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/bulloak/src/check.rs b/crates/bulloak/src/check.rs
index 5b736ad..e3ffcfb 100644
--- a/crates/bulloak/src/check.rs
+++ b/crates/bulloak/src/check.rs
@@ -122,6 +122,11 @@ impl Check {
                 fixed_count,
                 issue_literal
             );
+
+            // Files that could not be loaded were not fixed.
+            if !violations.is_empty() {
+                exit(&violations);
+            }
         } else {
             for ctx in ctxs {
                 violations.append(&mut rules::StructuralMatcher::check(&ctx));
-- 
2.43.0


From 422df6f2af07c25d41325594e4353db2df431aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 07/14] fix: `check --fix` fails when it cannot write a fixed
 file

---
 crates/bulloak/src/check.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/bulloak/src/check.rs b/crates/bulloak/src/check.rs
index e3ffcfb..32ab861 100644
--- a/crates/bulloak/src/check.rs
+++ b/crates/bulloak/src/check.rs
@@ -65,6 +65,7 @@ impl Check {
 
         if self.fix {
             let mut fixed_count = 0;
+            let mut write_failed = false;
             for mut ctx in ctxs {
                 let violations = rules::StructuralMatcher::check(&ctx);
                 let fixable_count =
@@ -110,7 +111,11 @@ impl Check {
                 let sol = ctx.sol.clone();
                 let formatted =
                     ctx.fmt().expect("should format the emitted solidity code");
-                self.write(&formatted, sol);
+                if let Err(e) = self.write(&formatted, sol) {
+                    eprintln!("{}: {e}", "warn".yellow());
+                    write_failed = true;
+                    continue;
+                }
 
                 fixed_count += fixable_count;
             }
@@ -127,6 +132,10 @@ impl Check {
             if !violations.is_empty() {
                 exit(&violations);
             }
+
+            if write_failed {
+                std::process::exit(1);
+            }
         } else {
             for ctx in ctxs {
                 violations.append(&mut rules::StructuralMatcher::check(&ctx));
@@ -140,13 +149,14 @@ impl Check {
     ///
     /// If the `--stdout` flag was passed, then the output is printed to
     /// stdout, else it is written to the corresponding file.
-    fn write(&self, output: &str, sol: PathBuf) {
+    fn write(&self, output: &str, sol: PathBuf) -> std::io::Result<()> {
         if self.stdout {
             println!("{} {}", "-->".blue(), sol.to_string_lossy());
             println!("{}", output.trim());
             println!("{}", "<--".blue());
-        } else if let Err(e) = fs::write(sol, output) {
-            eprintln!("{}: {e}", "warn".yellow());
+            Ok(())
+        } else {
+            fs::write(sol, output)
         }
     }
 }
-- 
2.43.0


From 77bfe4133dfaa10ea6b6c883060c9599c1348936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 08/14] fix: keep the tests of every root when combining trees

---
 crates/foundry/src/hir/combiner.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/foundry/src/hir/combiner.rs b/crates/foundry/src/hir/combiner.rs
index 37ecd0d..af41bfd 100644
--- a/crates/foundry/src/hir/combiner.rs
+++ b/crates/foundry/src/hir/combiner.rs
@@ -245,6 +245,11 @@ fn collect_modifier(
         return Some(child);
     };
 
+    // Only modifiers are shared between the roots, tests are always kept.
+    if test_or_modifier.is_function() {
+        return Some(Hir::FunctionDefinition(test_or_modifier));
+    }
+
     // If child is of type `FunctionDefinition` with the same identifier
     // as a child of another `ContractDefinition` of ty `Modifier`, then
     // they are duplicates.
-- 
2.43.0


From 5750125c84b54b5aa962170817f5ebf2897edf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:16 +0000
Subject: [PATCH 09/14] fix: `check --fix` inserts functions behind the closest
 present one

---
 crates/foundry/src/check/violation.rs | 33 ++++++++++++++-------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 57cb0b9..e1e05d8 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -232,28 +232,29 @@ impl ViolationKind {
 /// Offset position for function insertion
 ///
 /// # Panics
-/// If the contract's opening brace cannot be located when processing the first
-/// function
+/// If the contract's opening brace cannot be located when no preceding function
+/// is present
 fn get_insertion_offset(
     contract_sol: &pt::ContractDefinition,
     contract_hir: &hir::ContractDefinition,
     index: usize,
     src: impl AsRef<str>,
 ) -> usize {
-    if index == 0 {
-        return find_contract_body_start(contract_sol, src.as_ref());
-    }
-
-    match &contract_hir.children[index - 1] {
-        Hir::FunctionDefinition(prev_fn_hir) => {
-            find_matching_fn(contract_sol, prev_fn_hir)
-                .expect("matching function should exist")
-                .1
-                .loc()
-                .end()
-        }
-        _ => unreachable!("previous child should be a function definition"),
-    }
+    // The function goes after the closest preceding one that is present, which
+    // might not be the previous one, e.g. when modifiers are skipped.
+    contract_hir.children[..index]
+        .iter()
+        .rev()
+        .find_map(|child| match child {
+            Hir::FunctionDefinition(prev_fn_hir) => {
+                find_matching_fn(contract_sol, prev_fn_hir)
+            }
+            _ => None,
+        })
+        .map_or_else(
+            || find_contract_body_start(contract_sol, src.as_ref()),
+            |(_, prev_fn_sol)| prev_fn_sol.loc().end(),
+        )
 }
 
 /// Finds the starting position of a contract's body in the source code.
-- 
2.43.0


From 52553308e4e9cd3b7ad64912445a93ac6d2dc9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:16 +0000
Subject: [PATCH 10/14] fix: `check --fix` puts functions in the order of the
 tree

---
 crates/foundry/src/check/violation.rs | 75 +++++++++------------------
 1 file changed, 25 insertions(+), 50 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index e1e05d8..7115e01 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -7,10 +7,7 @@ use forge_fmt::{
     solang_ext::{CodeLocationExt, SafeUnwrap},
 };
 use owo_colors::OwoColorize;
-use solang_parser::{
-    pt,
-    pt::{ContractDefinition, ContractPart},
-};
+use solang_parser::{pt, pt::ContractDefinition};
 use thiserror::Error;
 
 use super::{context::Context, location::Location};
@@ -281,16 +278,14 @@ fn find_contract_body_start(
 /// Rearranges functions in a Solidity contract to match the order in the HIR.
 ///
 /// The algorithm goes like this:
-/// 1. It first creates a set of function names present in `contract_hir` to
-///    identify the functions that need to be sorted.
-/// 2. It then iterates over the `violations` to correct the order of functions
-///    in `contract_sol`, matching them with `contract_hir`.
-/// 3. Functions not part of `contract_hir` are removed, as their correct
-///    position is unknown.
-/// 4. The sorted functions are then compiled into a string (`source`) and
+/// 1. It first finds the functions of `contract_sol` that match a function in
+///    `contract_hir`, in the order in which the latter lists them. Functions
+///    not part of `contract_hir` are left out, as their correct position is
+///    unknown.
+/// 2. The sorted functions are then compiled into a string (`source`) and
 ///    simultaneously removed from a temporary string (`scratch`) that mirrors
 ///    the original source code.
-/// 5. Finally, the function reconstructs the contract's body by combining the
+/// 3. Finally, the function reconstructs the contract's body by combining the
 ///    sorted functions and any remaining parts of the contract (preserved in
 ///    `scratch`), ensuring all components are included in the output.
 ///
@@ -312,54 +307,34 @@ pub fn fix_order(
     contract_hir: &hir::ContractDefinition,
     ctx: Context,
 ) -> Context {
-    // 1. Create a set containing the functions that appear in the tree.
+    let is_order_violation = |violation: &Violation| {
+        matches!(violation.kind, ViolationKind::FunctionOrderMismatch(..))
+    };
+    if !violations.iter().any(is_order_violation) {
+        return ctx;
+    }
+
+    // 1. Find the functions that appear in the tree, in the order of the tree.
     //
     // These are the functions that we know how to sort.
-    let fn_names: HashSet<String> = contract_hir
+    let mut seen = HashSet::new();
+    let fns: Vec<&pt::FunctionDefinition> = contract_hir
         .children
         .iter()
-        .filter_map(|child| {
-            if let hir::Hir::FunctionDefinition(f) = &child {
-                Some(f.identifier.clone())
-            } else {
-                None
-            }
-        })
-        .collect();
-
-    // 2. Properly sort functions in a new vec.
-    let mut fns = contract_sol.parts.clone();
-    for violation in violations {
-        if let ViolationKind::FunctionOrderMismatch(f, sol_idx, hir_idx) =
-            &violation.kind
-        {
-            fns.remove(*sol_idx);
-            fns.insert(
-                *hir_idx,
-                ContractPart::FunctionDefinition(Box::new(f.clone())),
-            );
-        }
-    }
-
-    // 3. Remove functions that are not part of the hir since
-    // we don't know where they go.
-    let fns: Vec<&ContractPart> = fns
-        .iter()
-        .filter(|f| {
-            if let ContractPart::FunctionDefinition(f) = f {
-                fn_names.contains(&f.name.safe_unwrap().name)
-            } else {
-                false
-            }
+        .filter_map(|child| match child {
+            Hir::FunctionDefinition(f) => find_matching_fn(contract_sol, f),
+            _ => None,
         })
+        .filter(|(sol_idx, _)| seen.insert(*sol_idx))
+        .map(|(_, f)| f)
         .collect();
 
-    // 4. a - Add the functions that appear in the tree to the blank
+    // 2. a - Add the functions that appear in the tree to the blank
     // string `source`.
     //    b - Replace them with whitespace in `scratch`.
     //
     // Since we sorted in a previous step, they'll appear sorted in
-    // the string. We do 4.b because we want to append the remaining
+    // the string. We do 2.b because we want to append the remaining
     // functions after the sorted functions.
     let mut scratch = ctx.src.clone();
     let mut source = Vec::with_capacity(fns.len());
@@ -370,7 +345,7 @@ pub fn fix_order(
         source.push(f);
     }
 
-    // 5. Replace the contract's body with the sorted functions and
+    // 3. Replace the contract's body with the sorted functions and
     // the extra functions contained in the scratch string.
     // We know there is at least two parts because we found order violations.
     let first_part_loc = contract_sol.parts[0].loc();
-- 
2.43.0


From ff1aee120f54d3715a0ebd93ea34fc53490c0f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:20 +0000
Subject: [PATCH 11/14] fix: `check --fix` takes out only the functions it
 moves

---
 crates/foundry/src/check/violation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 7115e01..293e827 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -341,7 +341,7 @@ pub fn fix_order(
     for f in &fns {
         let loc = f.loc();
         let f = ctx.src[loc.start()..loc.end()].to_owned();
-        scratch = scratch.replace(&f, " ".repeat(f.len()).as_str());
+        scratch.replace_range(loc.start()..loc.end(), &" ".repeat(f.len()));
         source.push(f);
     }
 
-- 
2.43.0


From 0c27b107fc324b041cc1aee5057127ce5c288e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:00 +0000
Subject: [PATCH 12/14] fix: `check --fix` renames the contract itself and
 nothing else

---
 crates/foundry/src/check/violation.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 293e827..81a1bf2 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -180,10 +180,17 @@ impl ViolationKind {
                     parse(&source).expect("should parse Solidity string");
                 ctx.from_parsed(parsed)
             }
-            ViolationKind::ContractNameNotMatches(new_name, old_name) => {
-                let source = ctx.src.replace(
-                    &format!("contract {old_name}"),
-                    &format!("contract {new_name}"),
+            ViolationKind::ContractNameNotMatches(new_name, _) => {
+                let Some(old_name) =
+                    find_contract(&ctx.pt).and_then(|contract| contract.name)
+                else {
+                    return ctx;
+                };
+
+                let mut source = ctx.src.clone();
+                source.replace_range(
+                    old_name.loc.start()..old_name.loc.end(),
+                    new_name,
                 );
                 let parsed =
                     parse(&source).expect("should parse Solidity string");
-- 
2.43.0


From b36a2005fb3b46498869f59c1d4870ed8b7e3370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:32 +0000
Subject: [PATCH 13/14] fix: `check --fix -m` adds a missing contract without
 modifiers

---
 crates/foundry/src/check/violation.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 81a1bf2..66c57f9 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -12,7 +12,6 @@ use thiserror::Error;
 
 use super::{context::Context, location::Location};
 use crate::{
-    config::Config,
     hir::{self, Hir},
     sol::{self, find_contract, find_matching_fn},
 };
@@ -173,8 +172,7 @@ impl ViolationKind {
     pub fn fix(&self, mut ctx: Context) -> Context {
         match self {
             ViolationKind::ContractMissing(_) => {
-                let pt = sol::Translator::new(&Config::default())
-                    .translate(&ctx.hir);
+                let pt = sol::Translator::new(&ctx.cfg).translate(&ctx.hir);
                 let source = sol::Formatter::new().emit(pt.clone());
                 let parsed =
                     parse(&source).expect("should parse Solidity string");
-- 
2.43.0


From 6ad65c41fc46b3ab965c6f37deb777b48901f8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:37 +0000
Subject: [PATCH 14/14] fix: `check --fix` adds a missing contract to what the
 file holds

---
 crates/foundry/src/check/violation.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 66c57f9..ea4a983 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -172,8 +172,21 @@ impl ViolationKind {
     pub fn fix(&self, mut ctx: Context) -> Context {
         match self {
             ViolationKind::ContractMissing(_) => {
-                let pt = sol::Translator::new(&ctx.cfg).translate(&ctx.hir);
-                let source = sol::Formatter::new().emit(pt.clone());
+                let mut contract =
+                    sol::Translator::new(&ctx.cfg).translate(&ctx.hir);
+                let is_pragma = |part: &pt::SourceUnitPart| {
+                    matches!(part, pt::SourceUnitPart::PragmaDirective(..))
+                };
+                if ctx.pt.0.iter().any(is_pragma) {
+                    contract.0.retain(|part| !is_pragma(part));
+                }
+
+                // Keep what the file already holds.
+                let contract = sol::Formatter::new().emit(contract);
+                let source = match ctx.src.trim_end() {
+                    "" => contract,
+                    src => format!("{src}\n\n{contract}"),
+                };
                 let parsed =
                     parse(&source).expect("should parse Solidity string");
                 ctx.from_parsed(parsed)
-- 
2.43.0

