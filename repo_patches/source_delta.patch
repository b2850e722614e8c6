From 3cfe31ac04a2dc34a558de10a450fe088749cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:56 +0000
Subject: [PATCH 01/24] fix: keep git import declarations from being read as
 git options

---
 src/import/git.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/import/git.rs b/src/import/git.rs
index 8c056e9..454b497 100644
--- a/src/import/git.rs
+++ b/src/import/git.rs
@@ -79,8 +79,13 @@ pub fn cached_file_path(url: &str, commit: &str, path: &str) -> Result<PathBuf,
 /// If the file is already cached, returns immediately without any git
 /// or network operations.
 pub fn resolve_git_import(url: &str, commit: &str, path: &str) -> Result<PathBuf, SourceError> {
-    // Reject commits that look like path traversal attempts.
-    if commit.contains("..") || commit.contains('/') || commit.contains('\\') {
+    // Reject commits that look like path traversal attempts, or that `git`
+    // would take for an option rather than a revision.
+    if commit.contains("..")
+        || commit.contains('/')
+        || commit.contains('\\')
+        || commit.starts_with('-')
+    {
         return Err(SourceError::InvalidSource(
             format!("invalid git commit reference: {commit:?}"),
             0,
@@ -112,7 +117,8 @@ pub fn resolve_git_import(url: &str, commit: &str, path: &str) -> Result<PathBuf
         })?;
 
         let output = Command::new("git")
-            .args(["clone", "--bare", url, "."])
+            // `--` keeps a URL beginning with `-` from being read as an option.
+            .args(["clone", "--bare", "--", url, "."])
             .current_dir(&bare_dir)
             .output()
             .map_err(|e| {
-- 
2.43.0


From 35ef3f070258d825378ce761fb7a6f13712a0082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 02/24] fix: fail the run when the statistics file cannot be
 written

---
 src/bin/eu.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin/eu.rs b/src/bin/eu.rs
index 1867e59..70eac45 100644
--- a/src/bin/eu.rs
+++ b/src/bin/eu.rs
@@ -316,6 +316,10 @@ pub fn exit_code(opts: &EucalyptOptions, code: i32, stats: &Statistics) -> i32 {
         let json = serde_json::to_string_pretty(&stats.to_json()).unwrap_or_default();
         if let Err(e) = std::fs::write(path, json) {
             eprintln!("Failed to write statistics file {}: {e}", path.display());
+            // A run that did not deliver everything asked of it has failed.
+            if code == 0 {
+                return 1;
+            }
         }
     }
 
-- 
2.43.0


From 65f23d1cbfb046ecc8869ca832babe9047c3e7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 03/24] fix: answer editor requests whose parameters do not
 decode

---
 src/driver/lsp/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/driver/lsp/mod.rs b/src/driver/lsp/mod.rs
index 2ded8d9..6cc7983 100644
--- a/src/driver/lsp/mod.rs
+++ b/src/driver/lsp/mod.rs
@@ -472,7 +472,17 @@ fn main_loop(connection: &Connection) -> Result<(), Box<dyn std::error::Error>>
                 if connection.handle_shutdown(&req)? {
                     return Ok(());
                 }
-                handle_request(connection, &state, req)?;
+                let id = req.id.clone();
+                if let Err(e) = handle_request(connection, &state, req) {
+                    // A request whose parameters do not decode still gets
+                    // its one response, and the session goes on.
+                    let resp = Response::new_err(
+                        id,
+                        lsp_server::ErrorCode::InvalidParams as i32,
+                        e.to_string(),
+                    );
+                    connection.sender.send(Message::Response(resp))?;
+                }
             }
             Message::Notification(notif) => {
                 handle_notification(connection, &mut state, notif)?;
-- 
2.43.0


From c97dbc52c63826406b10def1c6c5f6630f6624b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 04/24] fix: fmt --check - reports stdin needing reformatting
 in the exit status

---
 src/driver/format.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/driver/format.rs b/src/driver/format.rs
index d81bc89..bcc11a8 100644
--- a/src/driver/format.rs
+++ b/src/driver/format.rs
@@ -28,9 +28,16 @@ pub fn format(opt: &EucalyptOptions) -> Result<i32, String> {
 
         // Handle stdin marker
         if path_str == "-" {
-            if let Err(e) = format_stdin(&config, opt) {
-                eprintln!("Error formatting stdin: {}", e);
-                exit_code = 1;
+            match format_stdin(&config, opt) {
+                Ok(stdin_result) => {
+                    if stdin_result != 0 {
+                        exit_code = stdin_result;
+                    }
+                }
+                Err(e) => {
+                    eprintln!("Error formatting stdin: {}", e);
+                    exit_code = 1;
+                }
             }
             continue;
         }
-- 
2.43.0


From 7712b2dca8a0f52569b06bcfc4de6ccaf26aba28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 05/24] fix: test runs fail when a directory entry cannot be
 read

---
 src/driver/tester.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/driver/tester.rs b/src/driver/tester.rs
index 00ebf5b..43e84f9 100644
--- a/src/driver/tester.rs
+++ b/src/driver/tester.rs
@@ -212,7 +212,8 @@ fn directory_plans(
 ) -> Result<Vec<TestPlan>, EucalyptError> {
     println!("Gathering tests in {}", dir.display());
     let mut tests: Vec<_> = fs::read_dir(dir)?
-        .filter_map(Result::ok)
+        .collect::<Result<Vec<_>, _>>()?
+        .into_iter()
         .filter(|f| {
             matches!(
                 f.path().extension().and_then(|s| s.to_str()),
-- 
2.43.0


From 547e48575f755143bb7ba010d9840ab72c5bfdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 06/24] fix: count the single field of a key-value list
 constructor

BlockKvList is built and matched with one field; declaring two made the
optimiser shift variables in its branches by the wrong amount.
---
 src/eval/stg/tags.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval/stg/tags.rs b/src/eval/stg/tags.rs
index abe8380..6ec4c34 100644
--- a/src/eval/stg/tags.rs
+++ b/src/eval/stg/tags.rs
@@ -87,7 +87,7 @@ impl DataConstructor {
             DataConstructor::ListCons => 2,
             DataConstructor::Block => 2,
             DataConstructor::BlockPair => 2,
-            DataConstructor::BlockKvList => 2,
+            DataConstructor::BlockKvList => 1,
             DataConstructor::BoxedZdt => 1,
             DataConstructor::IoReturn => 2,
             DataConstructor::IoBind => 3,
-- 
2.43.0


From d8f8fc547896e64aad8dfa45e2b8c809930a59fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 07/24] fix: evaluate a computed separator before joining
 strings

---
 src/eval/stg/string.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/eval/stg/string.rs b/src/eval/stg/string.rs
index 8db957c..39881c9 100644
--- a/src/eval/stg/string.rs
+++ b/src/eval/stg/string.rs
@@ -155,9 +155,13 @@ impl StgIntrinsic for Join {
                 unbox_str(
                     local(2),
                     // [unbox-sep] [sl] [l] [s]
-                    let_(
-                        vec![value(call::bif::join(lref(1), lref(0)))],
-                        data(DataConstructor::BoxedString.tag(), vec![lref(0)]),
+                    force(
+                        local(0),
+                        // [sep] [unbox-sep] [sl] [l] [s]
+                        let_(
+                            vec![value(call::bif::join(lref(2), lref(0)))],
+                            data(DataConstructor::BoxedString.tag(), vec![lref(0)]),
+                        ),
                     ),
                 ),
             ),
-- 
2.43.0


From d6a073db686ffbf05ef1bf0f5ff5927939254287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 08/24] fix: evaluate computed tags and values before rendering
 them tagged

---
 src/eval/stg/render.rs | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/eval/stg/render.rs b/src/eval/stg/render.rs
index d8f5d30..61c406b 100644
--- a/src/eval/stg/render.rs
+++ b/src/eval/stg/render.rs
@@ -57,6 +57,26 @@ impl StgIntrinsic for Render {
             ),
         );
 
+        // boxes may hold unevaluated thunks, so both the unboxed tag and
+        // the unboxed value are evaluated before they are emitted
+        let emit_tagged_native = force(
+            local(0), // [tag] [native]
+            force(
+                local(2),                                                    // [eval-tag] [tag] [native]
+                force(call::bif::emit_tag_native(lref(1), lref(0)), unit()), // [eval-native] [eval-tag] [tag] [native]
+            ),
+        );
+
+        let emit_tagged_seq_start = force(
+            local(0), // [tag]
+            force(call::bif::emit_tag_seq_start(lref(0)), unit()),
+        );
+
+        let emit_tagged_block_start = force(
+            local(0), // [tag]
+            force(call::bif::emit_tag_block_start(lref(0)), unit()),
+        );
+
         let render = lambda(
             1,
             letrec_(
@@ -73,7 +93,7 @@ impl StgIntrinsic for Render {
                                 local(2),
                                 vec![(
                                     DataConstructor::BoxedString.tag(), // [tag] [num] [tagfn tag] [boxnum]
-                                    force(call::bif::emit_tag_native(lref(0), lref(1)), unit()),
+                                    emit_tagged_native.clone(),
                                 )],
                                 force(EmitNative.global(lref(1)), unit()), // [()] [num] [tagfn tag] [boxnum]
                             ),
@@ -84,7 +104,7 @@ impl StgIntrinsic for Render {
                                 local(2),
                                 vec![(
                                     DataConstructor::BoxedString.tag(), // [tag] [sym] [tagfn tag] [boxsym]
-                                    force(call::bif::emit_tag_native(lref(0), lref(1)), unit()),
+                                    emit_tagged_native.clone(),
                                 )],
                                 force(EmitNative.global(lref(1)), unit()), // [()] [sym] [tagfn tag] [boxsym]
                             ),
@@ -95,7 +115,7 @@ impl StgIntrinsic for Render {
                                 local(2),
                                 vec![(
                                     DataConstructor::BoxedString.tag(), // [tagstr] [str] [tagfn tag] [boxstr]
-                                    force(call::bif::emit_tag_native(lref(0), lref(1)), unit()),
+                                    emit_tagged_native.clone(),
                                 )],
                                 force(EmitNative.global(lref(1)), unit()), // [()] [str] [boxstr] [tagfn tag]
                             ),
@@ -106,7 +126,7 @@ impl StgIntrinsic for Render {
                                 local(2),
                                 vec![(
                                     DataConstructor::BoxedString.tag(), // [tagstr] [str] [tagfn tag] [boxtd]
-                                    force(call::bif::emit_tag_native(lref(0), lref(1)), unit()),
+                                    emit_tagged_native.clone(),
                                 )],
                                 force(EmitNative.global(lref(1)), unit()), // [()] [str] [boxtd] [tagfn tag]
                             ),
@@ -117,7 +137,7 @@ impl StgIntrinsic for Render {
                                 local(2),
                                 vec![(
                                     DataConstructor::BoxedString.tag(), // [tag] [zdt] [tagfn tag] [boxzdt]
-                                    force(call::bif::emit_tag_native(lref(0), lref(1)), unit()),
+                                    emit_tagged_native.clone(),
                                 )],
                                 force(EmitNative.global(lref(1)), unit()), // [()] [zdt] [tagfn tag] [boxzdt]
                             ),
@@ -130,7 +150,7 @@ impl StgIntrinsic for Render {
                                     local(3),
                                     vec![(
                                         DataConstructor::BoxedString.tag(), // [tagstr] [h t] [tagfn tag]
-                                        force(call::bif::emit_tag_seq_start(lref(0)), unit()),
+                                        emit_tagged_seq_start.clone(),
                                     )],
                                     call::bif::emit_seq_start(),
                                 ), // [()] [h t] [tagfn tag] [cons],
@@ -144,7 +164,7 @@ impl StgIntrinsic for Render {
                                     local(1),
                                     vec![(
                                         DataConstructor::BoxedString.tag(), // // [tagstr] [] [lcons] [tagfn tag]
-                                        force(call::bif::emit_tag_seq_start(lref(0)), unit()),
+                                        emit_tagged_seq_start.clone(),
                                     )],
                                     call::bif::emit_seq_start(),
                                 ),
@@ -158,7 +178,7 @@ impl StgIntrinsic for Render {
                                     local(3),
                                     vec![(
                                         DataConstructor::BoxedString.tag(), // [tagstr] [items index] [tagfn tag]
-                                        force(call::bif::emit_tag_block_start(lref(0)), unit()),
+                                        emit_tagged_block_start.clone(),
                                     )],
                                     call::bif::emit_block_start(), // [()] [items index] [tagfn tag]
                                 ),
-- 
2.43.0


From 1bb9d368aec59a85b77f6c95e3d4c4d4988697bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 09/24] fix: evaluate list tails as LIST.DROP walks them

---
 src/eval/stg/list.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/eval/stg/list.rs b/src/eval/stg/list.rs
index 9f2e3e5..ea5d96b 100644
--- a/src/eval/stg/list.rs
+++ b/src/eval/stg/list.rs
@@ -540,21 +540,24 @@ impl StgIntrinsic for ListDrop {
         let smid = machine.annotation();
 
         // Walk the cons spine, skipping n elements, then return the remaining
-        // cell. Uses the engine-neutral data_tag/data_field ABI (the strict
-        // wrapper has forced the spine), so it runs on both engines rather
-        // than the HeapSyn-only navigator, which panics on the bytecode engine
-        // (eu-mr5e). No handle is held across an allocation, so it is GC-safe.
+        // cell. Uses the engine-neutral data_tag/data_field ABI, so it runs on
+        // both engines rather than the HeapSyn-only navigator, which panics on
+        // the bytecode engine (eu-mr5e). The wrapper evaluates only the first
+        // cell, so each tail is forced as it is reached. No handle is held
+        // across a force — each `force` consumes the handle it is given — so
+        // it is GC-safe.
         let mut current = machine.resolve_closure(view, &args[1])?;
         for _ in 0..n {
-            match machine.data_tag(view, &current) {
+            let cell = machine.force(current)?;
+            match machine.data_tag(view, &cell) {
                 Some(tag) if tag == DataConstructor::ListCons.tag() => {
-                    current = machine.data_field(view, &current, 1).ok_or_else(|| {
+                    current = machine.data_field(view, &cell, 1).ok_or_else(|| {
                         ExecutionError::Panic(smid, "malformed cons cell".to_string())
                     })?;
                 }
                 Some(tag) if tag == DataConstructor::ListNil.tag() => {
                     // Ran out of elements — return the nil (empty list).
-                    return machine.set_result(current);
+                    return machine.set_result(cell);
                 }
                 _ => {
                     return Err(ExecutionError::NotValue(
-- 
2.43.0


From ed94d2e83b3f5d1b4f32fa370cb4669eaee453fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 10/24] fix: name the key in a failed lookup of a computed key

---
 src/eval/stg/block.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/eval/stg/block.rs b/src/eval/stg/block.rs
index a643cbe..a1df6ff 100644
--- a/src/eval/stg/block.rs
+++ b/src/eval/stg/block.rs
@@ -816,12 +816,16 @@ impl StgIntrinsic for LookupFail {
             force(
                 local(1), // force block
                 // [forced-block] [sym block]
-                app_bif(
-                    intrinsics::index(self.name())
-                        .expect("LOOKUP_FAIL must be registered")
-                        .try_into()
-                        .unwrap(),
-                    vec![lref(1), lref(0)],
+                force(
+                    local(1), // force (unboxed) sym
+                    // [forced-sym] [forced-block] [sym block]
+                    app_bif(
+                        intrinsics::index(self.name())
+                            .expect("LOOKUP_FAIL must be registered")
+                            .try_into()
+                            .unwrap(),
+                        vec![lref(0), lref(1)],
+                    ),
                 ),
             ),
         )
-- 
2.43.0


From 4557a7c214894af5e3c878faf34c622c047eaebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 11/24] fix: declare the arities MATCHES_KEY and NIL really
 have

---
 src/eval/intrinsics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eval/intrinsics.rs b/src/eval/intrinsics.rs
index 2ceb9c4..2c516e5 100644
--- a/src/eval/intrinsics.rs
+++ b/src/eval/intrinsics.rs
@@ -161,7 +161,7 @@ lazy_static! {
     },
     Intrinsic { // 21
             name: "MATCHES_KEY",
-            ty: function(vec![unk(), sym()]).unwrap(),
+            ty: function(vec![unk(), sym(), bool_()]).unwrap(),
             strict: vec![0, 1],
     },
     Intrinsic { // 22
@@ -261,7 +261,7 @@ lazy_static! {
         },
     Intrinsic { //41
             name: "NIL",
-            ty: function(vec![list(), bool_()]).unwrap(),
+            ty: list(),
             strict: vec![],
     },
     Intrinsic { //42
-- 
2.43.0


From 57fd67b3ec5d670cd97fa8a03169b8cd75d37f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 12/24] fix: report an XML document that ends before its root
 element is complete

---
 src/import/xml.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/import/xml.rs b/src/import/xml.rs
index 5452c08..e13bdd9 100644
--- a/src/import/xml.rs
+++ b/src/import/xml.rs
@@ -138,6 +138,14 @@ impl<'src> XmlImporter<'src> {
                         }
                     }
                 }
+                Ok(Event::Eof) => {
+                    // Reading on would yield `Eof` for ever.
+                    return Err(SourceError::InvalidXml(
+                        "unexpected end of document".to_string(),
+                        self.file_id,
+                        self.span(),
+                    ));
+                }
                 Err(e) => return Err(self.to_source_error(e)),
                 _ => (),
             }
-- 
2.43.0


From 23a477e83def05376bc7686d85788889b0c4c70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 13/24] fix: keep the content of CDATA sections when importing
 XML

---
 src/import/xml.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/import/xml.rs b/src/import/xml.rs
index e13bdd9..ce23217 100644
--- a/src/import/xml.rs
+++ b/src/import/xml.rs
@@ -113,6 +113,12 @@ impl<'src> XmlImporter<'src> {
                     let decoded = event.decode().map_err(|e| self.to_source_error(e))?;
                     text_buf.push_str(&decoded);
                 }
+                Ok(Event::CData(event)) => {
+                    // Character data that needs no unescaping; part of the
+                    // same text run as the fragments around it.
+                    let decoded = event.decode().map_err(|e| self.to_source_error(e))?;
+                    text_buf.push_str(&decoded);
+                }
                 Ok(Event::GeneralRef(bytes_ref)) => {
                     // Character reference (`&#NN;` / `&#xNN;`) or predefined
                     // entity reference (`&amp;`, `&lt;`, `&gt;`, `&quot;`,
-- 
2.43.0


From 7fd672a9b517917a0e47f133c57511732631ca96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 14/24] fix: report content after the root element of an XML
 document

---
 src/import/xml.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/import/xml.rs b/src/import/xml.rs
index ce23217..cbf1923 100644
--- a/src/import/xml.rs
+++ b/src/import/xml.rs
@@ -92,7 +92,7 @@ impl<'src> XmlImporter<'src> {
                         if let Some(top) = stack.back_mut() {
                             top.add(n);
                         } else {
-                            return Ok(n);
+                            return self.finish(n);
                         }
                     }
                 }
@@ -102,7 +102,7 @@ impl<'src> XmlImporter<'src> {
                     if let Some(top) = stack.back_mut() {
                         top.add(n);
                     } else {
-                        return Ok(n);
+                        return self.finish(n);
                     }
                 }
                 Ok(Event::Text(event)) => {
@@ -158,6 +158,27 @@ impl<'src> XmlImporter<'src> {
         }
     }
 
+    /// Complete the document once its root element is closed: only comments,
+    /// processing instructions and whitespace may follow.
+    fn finish(&mut self, root: RcExpr) -> Result<RcExpr, SourceError> {
+        let mut buf = Vec::new();
+        loop {
+            match self.reader.read_event_into(&mut buf) {
+                Ok(Event::Eof) => return Ok(root),
+                Ok(Event::Comment(_)) | Ok(Event::PI(_)) => (),
+                Ok(Event::Text(text)) if text.iter().all(|b| b.is_ascii_whitespace()) => (),
+                Ok(_) => {
+                    return Err(SourceError::InvalidXml(
+                        "content after the root element".to_string(),
+                        self.file_id,
+                        self.span(),
+                    ))
+                }
+                Err(e) => return Err(self.to_source_error(e)),
+            }
+        }
+    }
+
     /// Flush the accumulated text run (literal text plus resolved
     /// entity/character references) as a single text node, trimming the
     /// *whole* coalesced run rather than each contributing fragment. A
-- 
2.43.0


From aaf516ab338e5820d301c6a24414666b3a430484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:33 +0000
Subject: [PATCH 15/24] fix: report a source file that is present but cannot be
 read

---
 src/driver/source.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/driver/source.rs b/src/driver/source.rs
index 18d2bb7..a34b185 100644
--- a/src/driver/source.rs
+++ b/src/driver/source.rs
@@ -1268,13 +1268,13 @@ impl SourceLoader {
         for libdir in &self.lib_path {
             let mut filename = libdir.to_path_buf();
             filename.push(path);
-            if let Ok(text) = fs::read_to_string(&filename) {
+            if let Some(text) = read_if_present(&filename)? {
                 return Ok(FsInput::UserFile(text));
             }
         }
 
         // Try as absolute/relative from working directory
-        if let Ok(text) = fs::read_to_string(path) {
+        if let Some(text) = read_if_present(path)? {
             return Ok(FsInput::UserFile(text));
         }
 
@@ -1363,6 +1363,22 @@ impl SourceLoader {
     }
 }
 
+/// Read a candidate source file, or `None` if there is no such file and the
+/// next candidate should be tried.
+///
+/// A file that is there but cannot be read (not UTF-8, no permission) is an
+/// error: passing on to the next candidate would silently use other data.
+fn read_if_present(path: &Path) -> Result<Option<String>, EucalyptError> {
+    match fs::read_to_string(path) {
+        Ok(text) => Ok(Some(text)),
+        Err(_) if !path.exists() || path.is_dir() => Ok(None),
+        Err(e) => Err(EucalyptError::FileCouldNotBeRead(
+            path.to_string_lossy().to_string(),
+            Some(e.to_string()),
+        )),
+    }
+}
+
 /// Read the `prelude:` value from the top-level unit metadata block.
 ///
 /// Returns the raw string value (symbol name or file path) if found.
-- 
2.43.0


From 7bad256e972265654795e0a3a60043f9bb2dc96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:41 +0000
Subject: [PATCH 16/24] fix: count machine steps to the next poll across nested
 evaluations

Each drive loop counted down to its poll from a fresh 500, so a built-in
that forces many values with short evaluations (serialising an infinite
list for par-map, say) never polled: it could not be interrupted and
never collected.
---
 src/eval/bytecode/machine.rs | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/eval/bytecode/machine.rs b/src/eval/bytecode/machine.rs
index 58d3524..a1d8a94 100644
--- a/src/eval/bytecode/machine.rs
+++ b/src/eval/bytecode/machine.rs
@@ -340,6 +340,9 @@ pub struct BcMachineState {
     /// mirrors `MachineState::stripped_meta` in `vm.rs`. A live heap handle,
     /// so it is scanned and pointer-updated with the other roots.
     pub stripped_meta: Option<BcValue>,
+    /// Steps left until the next [`gc_poll`]. Shared by every drive loop, so
+    /// that a long series of short sub-runs polls as often as one long run.
+    pub poll_countdown: u32,
 }
 
 impl BcMachineState {
@@ -373,9 +376,21 @@ impl BcMachineState {
             allocs: 0,
             diagnostics: Vec::new(),
             stripped_meta: None,
+            poll_countdown: GC_POLL_INTERVAL,
         }
     }
 
+    /// Count one machine step; true when a [`gc_poll`] is due.
+    #[inline]
+    fn poll_due(&mut self) -> bool {
+        self.poll_countdown -= 1;
+        if self.poll_countdown == 0 {
+            self.poll_countdown = GC_POLL_INTERVAL;
+            return true;
+        }
+        false
+    }
+
     /// Move the live annotation to `smid`, remembering it in
     /// [`BcMachineState::last_annotation`] when it is a real location.
     ///
@@ -571,6 +586,9 @@ fn recycle_bif_args(state: &mut BcMachineState, frame: BifFrame) {
     state.bif_arg_pool.push(args);
 }
 
+/// Machine steps between two calls of [`gc_poll`].
+const GC_POLL_INTERVAL: u32 = 500;
+
 /// One GC poll shared by every drive loop (`run`, `drive_whnf`,
 /// `drive_to_whnf`), so the interrupt check and collection cadence cannot drift
 /// between the three hand-written loops (eu-apn7). Returns `Err(Interrupted)`
@@ -3234,8 +3252,6 @@ impl<'a> BytecodeMachine<'a> {
     /// code. Polls for GC every 500 ticks (mirrors `Machine::run`, spec §6).
     pub fn run(&mut self, limit: Option<usize>) -> Result<Option<u8>, ExecutionError> {
         self.clock.switch(ThreadOccupation::Mutator);
-        let gc_check_freq: u32 = 500;
-        let mut gc_countdown: u32 = gc_check_freq;
 
         while !self.state.terminated {
             if let Some(limit) = limit {
@@ -3243,9 +3259,7 @@ impl<'a> BytecodeMachine<'a> {
                     return Err(ExecutionError::DidntTerminate(limit));
                 }
             }
-            gc_countdown -= 1;
-            if gc_countdown == 0 {
-                gc_countdown = gc_check_freq;
+            if self.state.poll_due() {
                 gc_poll(
                     &mut self.state,
                     &mut self.heap,
@@ -3685,12 +3699,8 @@ impl BytecodeMachine<'_> {
     /// identical across the two engines.
     fn drive_whnf(&mut self) -> Result<(), ExecutionError> {
         self.clock.switch(ThreadOccupation::Mutator);
-        let gc_check_freq: u32 = 500;
-        let mut gc_countdown: u32 = gc_check_freq;
         while !self.state.terminated {
-            gc_countdown -= 1;
-            if gc_countdown == 0 {
-                gc_countdown = gc_check_freq;
+            if self.state.poll_due() {
                 gc_poll(
                     &mut self.state,
                     &mut self.heap,
@@ -4477,12 +4487,8 @@ impl BcBifContext<'_, '_> {
     /// terminates. Mirrors `evaluate_to_whnf_impl` (`vm.rs`).
     fn drive_to_whnf(&mut self) -> Result<(), ExecutionError> {
         let mut null = NullEmitter;
-        let gc_check_freq: u32 = 500;
-        let mut gc_countdown: u32 = gc_check_freq;
         while !self.state.terminated {
-            gc_countdown -= 1;
-            if gc_countdown == 0 {
-                gc_countdown = gc_check_freq;
+            if self.state.poll_due() {
                 gc_poll(self.state, self.heap, self.clock, self.dump_heap)?;
             }
             self.metrics.tick();
-- 
2.43.0


From 868918d7b8eb3efc276dd5b8cff34de6405661f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:32 +0000
Subject: [PATCH 17/24] fix: refuse git import commits that name the import
 cache itself

A commit of "bare", "." or "" addressed the bare clone kept beside the
cached trees, so an import could read the clone's internals and a
repository with a branch of that name could write into them.
---
 src/import/git.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/import/git.rs b/src/import/git.rs
index 454b497..b6f4f17 100644
--- a/src/import/git.rs
+++ b/src/import/git.rs
@@ -85,6 +85,11 @@ pub fn resolve_git_import(url: &str, commit: &str, path: &str) -> Result<PathBuf
         || commit.contains('/')
         || commit.contains('\\')
         || commit.starts_with('-')
+        // These name the repository's cache directory itself or the bare
+        // clone kept there, not the tree of a commit.
+        || commit.is_empty()
+        || commit == "."
+        || commit.eq_ignore_ascii_case("bare")
     {
         return Err(SourceError::InvalidSource(
             format!("invalid git commit reference: {commit:?}"),
-- 
2.43.0


From 6a94ed482e2f0a7ca465f186112b9ef81278b605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:15 +0000
Subject: [PATCH 18/24] fix: refuse an application of more arguments than its
 encoding can count

---
 src/eval/bytecode/encode.rs |  6 +++---
 src/eval/stg/compiler.rs    | 28 ++++++++++++++++++----------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/eval/bytecode/encode.rs b/src/eval/bytecode/encode.rs
index 550b2bc..f9bc566 100644
--- a/src/eval/bytecode/encode.rs
+++ b/src/eval/bytecode/encode.rs
@@ -600,9 +600,9 @@ fn build_program(enc: Encoder, f: &Fixtures) -> BytecodeProgram {
 /// that residual hard limit into an explicit, actionable diagnostic *before* the
 /// corrupt program can reach the machine (eu-2sa6.11).
 ///
-/// Every other bounded field is already guarded upstream: App/Cons/Bif arg
-/// counts (`u8`) cannot exceed the `u8` lambda-arity cap
-/// (`CompileError::MaxLambdaArgs`), `Case` branch-table spans are bounded by the
+/// Every other bounded field is already guarded upstream: App arg counts (`u8`)
+/// are capped by the compiler (`CompileError::MaxApplicationArgs`), Cons/Bif arg
+/// counts by the `u8` lambda-arity cap (`CompileError::MaxLambdaArgs`), `Case` branch-table spans are bounded by the
 /// `u8` data-constructor tag range, and Let/LetRec binding counts are `u32`
 /// (this fix). All of those overflow only *after* the code buffer would already
 /// exceed `u32::MAX`, so this single check backstops them too.
diff --git a/src/eval/stg/compiler.rs b/src/eval/stg/compiler.rs
index 0447329..b0b5ef5 100644
--- a/src/eval/stg/compiler.rs
+++ b/src/eval/stg/compiler.rs
@@ -39,6 +39,8 @@ pub enum CompileError {
     BoundVarOverflowsContext,
     #[error("exceed maximum number of lambda args")]
     MaxLambdaArgs,
+    #[error("exceed maximum number of arguments in an application")]
+    MaxApplicationArgs,
     #[error(
         "program too large for the bytecode engine: {0} bytes of code exceed the \
          32-bit code-offset limit ({} bytes)",
@@ -1372,11 +1374,7 @@ impl ProtoSyntax for ProtoDirectApp {
         context: &Context,
     ) -> Result<Rc<StgSyn>, CompileError> {
         let callable = self.f.take_reference(context)?;
-        let args = self
-            .args
-            .drain(0..)
-            .map(|mut a| a.take_reference(context))
-            .collect::<Result<Vec<Ref>, CompileError>>()?;
+        let args = take_application_args(&mut self.args, context)?;
         Ok(Rc::new(StgSyn::DirectApp {
             smid: self.smid,
             callable,
@@ -1386,6 +1384,20 @@ impl ProtoSyntax for ProtoDirectApp {
     }
 }
 
+/// Resolve the arguments of an application, refusing more than the `u8`
+/// argument count of the instruction encoding can express
+fn take_application_args(
+    args: &mut Vec<Box<dyn ProtoReference>>,
+    context: &Context,
+) -> Result<Vec<Ref>, CompileError> {
+    if args.len() > u8::MAX as usize {
+        return Err(CompileError::MaxApplicationArgs);
+    }
+    args.drain(0..)
+        .map(|mut a| a.take_reference(context))
+        .collect()
+}
+
 /// A function application that resolves all locals when context is available
 pub struct ProtoApp {
     f: Box<dyn ProtoReference>,
@@ -1421,11 +1433,7 @@ impl ProtoSyntax for ProtoApp {
         context: &Context,
     ) -> Result<Rc<StgSyn>, CompileError> {
         let callable = self.f.take_reference(context)?;
-        let args = self
-            .args
-            .drain(0..)
-            .map(|mut a| a.take_reference(context))
-            .collect::<Result<Vec<Ref>, CompileError>>()?;
+        let args = take_application_args(&mut self.args, context)?;
         Ok(Rc::new(StgSyn::App {
             callable,
             args,
-- 
2.43.0


From e87e335aba14f8f77deec3e7952323612fee80c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:43 +0000
Subject: [PATCH 19/24] fix: a format width or precision too large for the
 formatter is refused, not wrapped

---
 src/eval/stg/printf.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/eval/stg/printf.rs b/src/eval/stg/printf.rs
index 659a7e6..39f06b3 100644
--- a/src/eval/stg/printf.rs
+++ b/src/eval/stg/printf.rs
@@ -144,30 +144,32 @@ fn parse_flags(mut sub: &[u8]) -> (Flags, &[u8]) {
 /// field](https://en.wikipedia.org/wiki/Printf_format_string#Width_field).
 ///
 /// Does not support the dynamic argument '*' specifier
-fn parse_width(mut sub: &[u8]) -> (usize, &[u8]) {
-    let mut width: usize = 0;
+///
+/// Returns `None` for a number greater than the formatter can honour.
+fn parse_width(mut sub: &[u8]) -> Option<(usize, &[u8])> {
+    let mut width: u16 = 0;
     while let Some(&ch) = sub.first() {
         match ch {
             // https://rust-malaysia.github.io/code/2020/07/11/faster-integer-parsing.html#the-bytes-solution
-            b'0'..=b'9' => width = width * 10 + (ch & 0x0f) as usize,
+            b'0'..=b'9' => width = width.checked_mul(10)?.checked_add((ch & 0x0f).into())?,
             _ => break,
         }
         sub = next_char(sub);
     }
-    (width, sub)
+    Some((width.into(), sub))
 }
 
 /// Parse the [Precision
 /// field](https://en.wikipedia.org/wiki/Printf_format_string#Precision_field).
 ///
 /// Does not support the dynamic argument '*' specifier.
-fn parse_precision(sub: &[u8]) -> (Option<usize>, &[u8]) {
+fn parse_precision(sub: &[u8]) -> Option<(Option<usize>, &[u8])> {
     match sub.first() {
         Some(&b'.') => {
-            let (prec, sub) = parse_width(next_char(sub));
-            (Some(prec), sub)
+            let (prec, sub) = parse_width(next_char(sub))?;
+            Some((Some(prec), sub))
         }
-        _ => (None, sub),
+        _ => Some((None, sub)),
     }
 }
 
@@ -215,8 +217,8 @@ fn parse_format(format: &str) -> Option<Argument> {
     let sub = next_char(format.as_bytes());
 
     let (flags, sub) = parse_flags(sub);
-    let (width, sub) = parse_width(sub);
-    let (precision, sub) = parse_precision(sub);
+    let (width, sub) = parse_width(sub)?;
+    let (precision, sub) = parse_precision(sub)?;
     let (length, sub) = parse_length(sub);
     let ch = sub.first().unwrap_or(&0);
 
-- 
2.43.0


From 685acf733cf79ff7bd85d6ddad383c0c4ef387bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:43 +0000
Subject: [PATCH 20/24] fix: a producer handle beyond 32 bits is refused rather
 than truncated

---
 src/eval/stg/stream_intrinsic.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/eval/stg/stream_intrinsic.rs b/src/eval/stg/stream_intrinsic.rs
index 1b2edd2..53b1e42 100644
--- a/src/eval/stg/stream_intrinsic.rs
+++ b/src/eval/stg/stream_intrinsic.rs
@@ -51,12 +51,15 @@ impl StgIntrinsic for ProducerNext {
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
         let handle_num = num_arg(machine, view, &args[0])?;
-        let handle = handle_num.as_u64().ok_or_else(|| {
-            ExecutionError::Panic(
-                Smid::default(),
-                "producer handle must be a positive integer".to_string(),
-            )
-        })? as u32;
+        let handle = handle_num
+            .as_u64()
+            .and_then(|h| u32::try_from(h).ok())
+            .ok_or_else(|| {
+                ExecutionError::Panic(
+                    Smid::default(),
+                    "producer handle must be a positive integer".to_string(),
+                )
+            })?;
 
         // Advance the producer by one element
         let value_stg = match producer_next(handle) {
-- 
2.43.0


From 20a44635064a65b673474498b91a57f4bc98b789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:43 +0000
Subject: [PATCH 21/24] fix: a random integer above the signed range is not
 returned negative

---
 src/eval/stg/stream_prng.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval/stg/stream_prng.rs b/src/eval/stg/stream_prng.rs
index a01e362..d0899fb 100644
--- a/src/eval/stg/stream_prng.rs
+++ b/src/eval/stg/stream_prng.rs
@@ -103,7 +103,7 @@ fn machine_return_int_stream(
     int_val: u64,
     stream_state: u64,
 ) -> Result<(), ExecutionError> {
-    let num = machine.native_value(view, Native::Num(Number::from(int_val as i64)))?;
+    let num = machine.native_value(view, Native::Num(Number::from(int_val)))?;
     let boxed = machine.data_value(view, DataConstructor::BoxedNumber.tag(), &[num])?;
     let stream = machine.native_value(view, Native::Prng(stream_state))?;
     machine.return_closure_list(view, vec![boxed, stream])
-- 
2.43.0


From c7c5c77c39f9af24a3bce3d35e3ca42b119111af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:43 +0000
Subject: [PATCH 22/24] fix: a neighbour offset that overflows is out of
 bounds, not wrapped

---
 src/eval/memory/ndarray.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/eval/memory/ndarray.rs b/src/eval/memory/ndarray.rs
index 637ec29..6ff90d9 100644
--- a/src/eval/memory/ndarray.rs
+++ b/src/eval/memory/ndarray.rs
@@ -161,12 +161,8 @@ impl HeapNdArray {
                     .zip(offset.iter())
                     .zip(shape.iter())
                     .map(|((&c, &o), &dim)| {
-                        let nc = c as i64 + o;
-                        if nc < 0 || nc >= dim as i64 {
-                            None
-                        } else {
-                            Some(nc as usize)
-                        }
+                        let nc = c.checked_add_signed(o as isize)?;
+                        (nc < dim).then_some(nc)
                     })
                     .collect::<Option<Vec<usize>>>()?;
                 self.data.get(IxDyn(&neighbour)).copied()
-- 
2.43.0


From 384382b9750a94f31c8600c34b8de47e4491c0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:43 +0000
Subject: [PATCH 23/24] fix: the element count of a refused array shape is
 computed without overflow

---
 src/eval/stg/array.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/eval/stg/array.rs b/src/eval/stg/array.rs
index 942b9ae..c798787 100644
--- a/src/eval/stg/array.rs
+++ b/src/eval/stg/array.rs
@@ -160,7 +160,7 @@ impl StgIntrinsic for ArrayFromFlat {
         match HeapNdArray::from_flat(&shape, values) {
             Some(arr) => machine_return_ndarray(machine, view, arr),
             None => {
-                let expected: usize = shape.iter().product();
+                let expected = describe_element_count(&shape);
                 Err(ExecutionError::ArrayShapeMismatch(
                     smid,
                     format!(
@@ -479,7 +479,7 @@ impl StgIntrinsic for ArrayReshape {
         match arr.reshape(&new_shape) {
             Some(reshaped) => machine_return_ndarray(machine, view, reshaped),
             None => {
-                let new_total: usize = new_shape.iter().product();
+                let new_total = describe_element_count(&new_shape);
                 Err(ExecutionError::ArrayShapeMismatch(
                     smid,
                     format!(
@@ -726,6 +726,14 @@ impl StgIntrinsic for ArrayNeighbours {
 // Helpers
 // ---------------------------------------------------------------------------
 
+/// The number of elements a shape calls for, for use in a message
+fn describe_element_count(shape: &[usize]) -> String {
+    shape
+        .iter()
+        .try_fold(1usize, |total, &dim| total.checked_mul(dim))
+        .map_or_else(|| "too many".to_string(), |total| total.to_string())
+}
+
 /// Extract a list of numbers from a cons-list, converting to i64
 fn num_list_to_i64_vec(
     machine: &mut dyn IntrinsicMachine,
-- 
2.43.0


From 9c056aab0dcf57c2ca6aa9245f323abd2c6c0ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:43 +0000
Subject: [PATCH 24/24] fix: a timestamp beyond the calendar's range is
 reported, not a panic

---
 src/eval/stg/time.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/eval/stg/time.rs b/src/eval/stg/time.rs
index 97d6882..a7c3d93 100644
--- a/src/eval/stg/time.rs
+++ b/src/eval/stg/time.rs
@@ -248,13 +248,11 @@ impl StgIntrinsic for ZdtFromEpoch {
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
         let unix = num_arg(machine, view, &args[0])?;
-        if let Some(ts) = unix.as_i64() {
-            let zdt = DateTime::from(
-                Utc.timestamp_opt(ts, 0)
-                    .single()
-                    .expect("timestamp with zero nanoseconds is always valid"),
-            );
-            machine_return_zdt(machine, view, zdt)
+        if let Some(time) = unix
+            .as_i64()
+            .and_then(|ts| Utc.timestamp_opt(ts, 0).single())
+        {
+            machine_return_zdt(machine, view, DateTime::from(time))
         } else {
             Err(ExecutionError::BadTimestamp(machine.annotation(), unix))
         }
-- 
2.43.0

