From 469668b16e65e58694601d5996c0375f45e8b7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:03 +0000
Subject: [PATCH 01/24] fix: CLI reports success only if there are no
 diagnostics

---
 ginko/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginko/src/main.rs b/ginko/src/main.rs
index 9fe1434..21dcbd9 100644
--- a/ginko/src/main.rs
+++ b/ginko/src/main.rs
@@ -37,9 +37,9 @@ fn main() -> Result<(), Box<dyn Error>> {
     }
 
     if has_errors {
+        exit(1);
+    } else {
         println!("OK; No issues found");
         exit(0);
-    } else {
-        exit(1);
     }
 }
-- 
2.43.0


From a5b63099805896ca8063bb711d562616b1a5b279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:46 +0000
Subject: [PATCH 02/24] fix: analyze files after all their includes, in a
 reproducible order

The single swapping pass did not sort topologically and depended on hash map
order; it also panicked if an include was not part of the project.
---
 ginko/src/dts/project.rs | 67 ++++++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 27 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 3c8f1db..261f27b 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -7,7 +7,7 @@ use crate::dts::tokens::Lexer;
 use crate::dts::visitor::ItemAtCursor;
 use crate::dts::{Diagnostic, FileType, HasSpan, Parser, ParserContext, Position, Severity, Span};
 use itertools::Itertools;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::iter::empty;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
@@ -69,6 +69,13 @@ impl ProjectFile {
     pub fn source(&self) -> &String {
         &self.source
     }
+
+    fn includes(&self) -> impl Iterator<Item = &Include> {
+        self.file
+            .iter()
+            .flat_map(|file| &file.elements)
+            .filter_map(|element| element.as_include())
+    }
 }
 
 #[derive(Default)]
@@ -113,6 +120,12 @@ impl Project {
 
         let keys = self.compute_key_order();
 
+        // The results must not depend on a previous analysis.
+        for file in self.files.values_mut() {
+            file.context = None;
+            file.analysis_diagnostics.clear();
+        }
+
         let mut analysis = Analysis::new();
         for key in &keys {
             let proj_file = self.files.get(key).unwrap();
@@ -127,35 +140,35 @@ impl Project {
         }
     }
 
-    /// Computes the order in which files must be analyzed.
-    /// inefficient at the moment at O(n^3)
+    /// Computes the order in which files must be analyzed:
+    /// Every file comes after all files that it includes (except for cyclic includes).
     fn compute_key_order(&self) -> Vec<PathBuf> {
-        let mut map: HashMap<_, Vec<_>> = HashMap::new();
-        for (path, file) in &self.files {
-            let Some(dts_file) = &file.file else { continue };
-            map.entry(path.clone()).or_default();
-            let includes = dts_file
-                .elements
-                .iter()
-                .filter_map(|el| el.as_include())
-                .map(|incl| incl.path())
-                .collect_vec();
-            for include in includes.into_iter().flatten() {
-                map.entry(include).or_default().push(path.clone())
-            }
+        let mut order = vec![];
+        let mut visited = HashSet::new();
+        // Sorting makes the order reproducible, even if there are cyclic includes.
+        for path in self.files.keys().sorted() {
+            self.push_after_includes(path, &mut visited, &mut order);
         }
-        // This is very inefficient. Probably there is a better way.
-        let mut current_order = self.files.keys().cloned().collect_vec();
-        for (key, value) in &map {
-            let key_idx = current_order.iter().position(|r| r == key).unwrap();
-            for v in value {
-                let value_idx = current_order.iter().position(|r| r == v).unwrap();
-                if key_idx > value_idx {
-                    current_order.swap(key_idx, value_idx)
-                }
-            }
+        order
+    }
+
+    fn push_after_includes(
+        &self,
+        path: &Path,
+        visited: &mut HashSet<PathBuf>,
+        order: &mut Vec<PathBuf>,
+    ) {
+        // Includes that could not be loaded are not part of the project
+        let Some(file) = self.files.get(path) else {
+            return;
+        };
+        if !visited.insert(path.to_owned()) {
+            return;
+        }
+        for include in file.includes().filter_map(|include| include.path().ok()) {
+            self.push_after_includes(&include, visited, order);
         }
-        current_order
+        order.push(path.to_owned());
     }
 
     pub fn remove_file(&mut self, path: &Path) {
-- 
2.43.0


From 3e16fef66a35e51cb18ff5928a89301eefa7528d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 03/24] fix: keep serving files that do not exist on disk

Opening or changing a document that is deleted or not saved yet no longer
panics, and its diagnostics are found.
---
 ginko/src/dts/project.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 261f27b..c354522 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -78,6 +78,18 @@ impl ProjectFile {
     }
 }
 
+/// The unique path under which a file is stored in a project.
+/// The file does not need to exist on disk (it might be deleted, or not be saved yet).
+fn file_key(path: &Path) -> PathBuf {
+    if let Ok(path) = dunce::canonicalize(path) {
+        return path;
+    }
+    match (path.parent().map(dunce::canonicalize), path.file_name()) {
+        (Some(Ok(parent)), Some(name)) => parent.join(name),
+        _ => path.to_owned(),
+    }
+}
+
 #[derive(Default)]
 pub struct Project {
     files: HashMap<PathBuf, ProjectFile>,
@@ -109,11 +121,8 @@ impl Project {
     /// * file_name: The name of the file.
     /// * text: The contents of the file.
     /// * file_type: Defines how the file should be analyzed.
-    ///
-    /// # Panics
-    /// If `file_name` does not point to a valid file.
     pub fn add_file_with_text(&mut self, file_name: PathBuf, text: String, file_type: FileType) {
-        let file_name = dunce::canonicalize(file_name).expect("File must be present");
+        let file_name = file_key(&file_name);
         // First step: Parse file and all dependencies.
         // Dependencies are cached.
         self.parse_file(file_name.clone(), text, file_type);
@@ -172,9 +181,7 @@ impl Project {
     }
 
     pub fn remove_file(&mut self, path: &Path) {
-        if let Ok(path) = dunce::canonicalize(path) {
-            self.files.remove(&path);
-        }
+        self.files.remove(&file_key(path));
     }
 
     pub fn get_diagnostics(&self, path: &Path) -> Box<dyn Iterator<Item = &Diagnostic> + '_> {
@@ -303,10 +310,7 @@ impl Project {
     }
 
     pub fn get_file(&self, path: &Path) -> Option<&ProjectFile> {
-        match dunce::canonicalize(path) {
-            Ok(path) => self.files.get(&path),
-            Err(_) => None,
-        }
+        self.files.get(&file_key(path))
     }
 }
 
-- 
2.43.0


From 3dc0c37c48b7f48605e1e193a17edc8f0ce6632a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:04 +0000
Subject: [PATCH 04/24] fix: use the last of several content changes

---
 ginko_ls/src/server.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 3847d81..5b6451d 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -155,12 +155,14 @@ impl LanguageServer for Backend {
         let Some(file_path) = self.url_to_file_path(params.text_document.uri).await else {
             return;
         };
+        // Each change contains the full text, therefore the last one determines the contents.
+        let Some(change) = params.content_changes.into_iter().last() else {
+            return;
+        };
         let file_type = FileType::from(file_path.as_path());
-        self.project.write().add_file_with_text(
-            file_path.clone(),
-            params.content_changes.into_iter().next().unwrap().text,
-            file_type,
-        );
+        self.project
+            .write()
+            .add_file_with_text(file_path.clone(), change.text, file_type);
         self.publish_diagnostics().await
     }
 
-- 
2.43.0


From 12abb26b5feee1bbb8d4e7f9bc50023a9f20328b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:05 +0000
Subject: [PATCH 05/24] fix: only select the reference of a directive if the
 cursor is on it

---
 ginko/src/dts/visitor.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ginko/src/dts/visitor.rs b/ginko/src/dts/visitor.rs
index 02d0402..3a87316 100644
--- a/ginko/src/dts/visitor.rs
+++ b/ginko/src/dts/visitor.rs
@@ -45,11 +45,12 @@ impl AnyDirective {
                     None
                 }
             }
-            AnyDirective::DeletedNode(_, node_ref) => {
-                Some(ItemAtCursor::Reference(node_ref.item()))
-            }
-            AnyDirective::OmitIfNoRef(_, node_ref) => {
-                Some(ItemAtCursor::Reference(node_ref.item()))
+            AnyDirective::DeletedNode(_, node_ref) | AnyDirective::OmitIfNoRef(_, node_ref) => {
+                if node_ref.span().contains(cursor) {
+                    Some(ItemAtCursor::Reference(node_ref.item()))
+                } else {
+                    None
+                }
             }
             _ => None,
         }
-- 
2.43.0


From 8c91a6b7d1fb4ce3058a55b1c9ed8860d9a9000d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:06 +0000
Subject: [PATCH 06/24] fix: decode non-ASCII characters in strings

---
 ginko/src/dts/tokens/lexer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 53e95b9..9f8eb17 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -216,13 +216,13 @@ where
     //  ^~~ cursor is here
     fn string(&mut self, pos: Position) -> Option<Token> {
         let mut is_escaped: bool = false;
-        let mut str = String::new();
+        let mut str: Vec<u8> = vec![];
         loop {
             let ch = self.reader.consume()?;
             match ch {
                 b'\\' => {
                     if is_escaped {
-                        str.push(b'\\' as char);
+                        str.push(ch);
                         is_escaped = false;
                     } else {
                         is_escaped = true;
@@ -230,12 +230,12 @@ where
                 }
                 b'"' => {
                     if is_escaped {
-                        str.push(b'"' as char);
+                        str.push(ch);
                         is_escaped = false;
                     } else {
                         return Some(Token {
                             span: pos.to(self.reader.pos()),
-                            kind: TokenKind::String(str),
+                            kind: TokenKind::String(String::from_utf8(str).unwrap()),
                             source: self.source(),
                         });
                     }
@@ -244,7 +244,7 @@ where
                     if is_escaped {
                         is_escaped = false
                     }
-                    str.push(ch as char)
+                    str.push(ch)
                 }
             }
         }
-- 
2.43.0


From c2a548b7f904be04e0f7fa064047699b7c19d93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 07/24] fix: count columns in UTF-16 code units

---
 ginko/src/dts/reader.rs       | 12 +++++++++++-
 ginko/src/dts/tokens/lexer.rs |  7 ++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/ginko/src/dts/reader.rs b/ginko/src/dts/reader.rs
index 8a57a6d..177ccd6 100644
--- a/ginko/src/dts/reader.rs
+++ b/ginko/src/dts/reader.rs
@@ -52,7 +52,17 @@ impl Reader for ByteReader {
             b'\n' => {
                 self.pos = Position::new(self.pos.line() + 1, 0);
             }
-            _ => self.pos = Position::new(self.pos.line(), self.pos.character() + 1),
+            _ => {
+                // Characters are counted in UTF-16 code units, as defined by the LSP standard
+                let width = match ch {
+                    // UTF-8 continuation byte
+                    0x80..=0xBF => 0,
+                    // first byte of a character that is encoded as surrogate pair in UTF-16
+                    0xF0..=0xFF => 2,
+                    _ => 1,
+                };
+                self.pos = Position::new(self.pos.line(), self.pos.character() + width)
+            }
         }
         Some(ch)
     }
diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 9f8eb17..da8db0f 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -358,7 +358,12 @@ where
             b'<' => simple_token(ChevronLeft),
             b'>' => simple_token(ChevronRight),
             b',' => simple_token(Comma),
-            ch => simple_token(Unknown(ch)),
+            ch => {
+                let token = simple_token(Unknown(ch));
+                // skip the remaining bytes of a non-ASCII character
+                while self.reader.skip_if(|ch| matches!(ch, 0x80..=0xBF)) {}
+                token
+            }
         }
     }
 }
-- 
2.43.0


From 2b6009e02c8a5e1288e4a49803fa50e0832365a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:26 +0000
Subject: [PATCH 08/24] fix: honour the --include option of the language server

---
 ginko_ls/src/main.rs   |  4 ++--
 ginko_ls/src/server.rs | 21 +++++++++++++++++----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/ginko_ls/src/main.rs b/ginko_ls/src/main.rs
index c63f730..2cec870 100644
--- a/ginko_ls/src/main.rs
+++ b/ginko_ls/src/main.rs
@@ -12,7 +12,7 @@ struct Args {
 
 #[tokio::main]
 pub async fn main() {
-    Args::parse();
+    let include_paths = Args::parse().include.unwrap_or_default();
     // Log to stderr instead of stdout since communication with the language server client
     // happens through stdout
     tracing_subscriber::fmt()
@@ -21,6 +21,6 @@ pub async fn main() {
 
     let (stdin, stdout) = (tokio::io::stdin(), tokio::io::stdout());
 
-    let (service, socket) = LspService::new(server::Backend::new);
+    let (service, socket) = LspService::new(|client| server::Backend::new(client, include_paths));
     Server::new(stdin, stdout, socket).serve(service).await;
 }
diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 5b6451d..1d4f808 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -16,16 +16,29 @@ pub(crate) struct Backend {
     client: Client,
     project: RwLock<Project>,
     severities: SeverityMap,
+    /// Include paths given on the command line.
+    include_paths: Vec<String>,
 }
 
 impl Backend {
-    pub fn new(client: Client) -> Backend {
+    pub fn new(client: Client, include_paths: Vec<String>) -> Backend {
+        let mut project = Project::default();
+        project.set_include_paths(include_paths.clone());
         Backend {
             client,
-            project: RwLock::new(Project::default()),
+            project: RwLock::new(project),
             severities: SeverityMap::default(),
+            include_paths,
         }
     }
+
+    /// Sets the include paths from the configuration.
+    /// These come after those given on the command line.
+    fn configure(&self, config: ProjectConfig) {
+        let mut include_paths = self.include_paths.clone();
+        include_paths.extend(config.includes);
+        self.project.write().set_include_paths(include_paths);
+    }
 }
 
 #[derive(Deserialize, Serialize, Default, Debug)]
@@ -110,7 +123,7 @@ impl Backend {
 impl LanguageServer for Backend {
     async fn initialize(&self, params: InitializeParams) -> Result<InitializeResult> {
         let config = ProjectConfig::from_value(params.initialization_options.unwrap_or_default());
-        self.project.write().set_include_paths(config.includes);
+        self.configure(config);
 
         Ok(InitializeResult {
             server_info: None,
@@ -128,7 +141,7 @@ impl LanguageServer for Backend {
 
     async fn did_change_configuration(&self, params: DidChangeConfigurationParams) {
         let config = ProjectConfig::from_value(params.settings);
-        self.project.write().set_include_paths(config.includes);
+        self.configure(config);
         self.publish_diagnostics().await
     }
 
-- 
2.43.0


From 7b271b81882f92ea0e0b566a7d45b1947a931601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:45 +0000
Subject: [PATCH 09/24] fix: a changed include path configuration affects all
 known files

---
 ginko/src/dts/project.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index c354522..ba4aaed 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -98,11 +98,17 @@ pub struct Project {
 }
 
 impl Project {
+    /// Sets the paths where include files are searched.
+    /// Re-evaluates all files that are already present.
     pub fn set_include_paths(&mut self, include_paths: Vec<String>) {
         self.include_paths = include_paths
             .iter()
             .map(|path| dunce::canonicalize(path).unwrap_or_default())
             .collect::<Vec<PathBuf>>();
+        for path in self.files.keys().cloned().sorted() {
+            self.reparse_file(path);
+        }
+        self.analyze();
     }
 
     pub fn add_file(&mut self, file_name: String) -> Result<(), io::Error> {
@@ -125,8 +131,12 @@ impl Project {
         let file_name = file_key(&file_name);
         // First step: Parse file and all dependencies.
         // Dependencies are cached.
-        self.parse_file(file_name.clone(), text, file_type);
+        self.parse_file(file_name, text, file_type);
+        // Second step: Analyze all files
+        self.analyze();
+    }
 
+    fn analyze(&mut self) {
         let keys = self.compute_key_order();
 
         // The results must not depend on a previous analysis.
@@ -257,6 +267,14 @@ impl Project {
         }
     }
 
+    /// Parses an already known file again and loads the files that it includes.
+    fn reparse_file(&mut self, file_name: PathBuf) {
+        if let Some(file) = self.files.get(&file_name) {
+            let (text, file_type) = (file.source.clone(), file.file_type);
+            self.parse_file(file_name, text, file_type);
+        }
+    }
+
     fn parse_file(&mut self, file_name: PathBuf, text: String, file_type: FileType) {
         let reader = ByteReader::from_string(text.clone());
         let lexer = Lexer::new(reader, file_name.clone().into());
-- 
2.43.0


From 8af7bb97148446d59d790ae395ec1db61810dc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:47 +0000
Subject: [PATCH 10/24] fix: do not search the working directory in place of a
 missing include path

---
 ginko/src/dts/project.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index ba4aaed..8cc130b 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -103,7 +103,7 @@ impl Project {
     pub fn set_include_paths(&mut self, include_paths: Vec<String>) {
         self.include_paths = include_paths
             .iter()
-            .map(|path| dunce::canonicalize(path).unwrap_or_default())
+            .map(|path| dunce::canonicalize(path).unwrap_or_else(|_| PathBuf::from(path)))
             .collect::<Vec<PathBuf>>();
         for path in self.files.keys().cloned().sorted() {
             self.reparse_file(path);
-- 
2.43.0


From 8694b4722cc92eae19f22019075f9a28220c7c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:59 +0000
Subject: [PATCH 11/24] fix: closing a document hands back to the file on disk

Files that include the closed document see its contents on disk, and the
diagnostics of files that are no longer used are cleared on the client.
---
 ginko/src/dts/analysis.rs |  6 ++++++
 ginko/src/dts/project.rs  | 44 +++++++++++++++++++++++++++++++++++++--
 ginko_ls/src/server.rs    | 10 ++++++++-
 3 files changed, 57 insertions(+), 3 deletions(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index bcfe7eb..0afe595 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -7,6 +7,7 @@ use crate::dts::error_codes::ErrorCode;
 use crate::dts::import_guard::ImportGuard;
 use crate::dts::{Diagnostic, FileType, Position, Project};
 use std::collections::HashMap;
+use std::io;
 use std::path::{Path as StdPath, PathBuf};
 use std::sync::Arc;
 
@@ -191,6 +192,11 @@ impl Analysis {
             return;
         }
         let Some(proj_file) = ctx.project.get_file(&path) else {
+            ctx.add_diagnostic(Diagnostic::io_error(
+                include.span(),
+                include.source(),
+                io::ErrorKind::NotFound.into(),
+            ));
             return;
         };
         if proj_file.has_errors(&ctx.project.severities) {
diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 8cc130b..9ee2870 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -93,6 +93,8 @@ fn file_key(path: &Path) -> PathBuf {
 #[derive(Default)]
 pub struct Project {
     files: HashMap<PathBuf, ProjectFile>,
+    /// The files that were added explicitly, as opposed to being included
+    added_files: HashSet<PathBuf>,
     pub include_paths: Vec<PathBuf>,
     pub severities: SeverityMap,
 }
@@ -129,6 +131,7 @@ impl Project {
     /// * file_type: Defines how the file should be analyzed.
     pub fn add_file_with_text(&mut self, file_name: PathBuf, text: String, file_type: FileType) {
         let file_name = file_key(&file_name);
+        self.added_files.insert(file_name.clone());
         // First step: Parse file and all dependencies.
         // Dependencies are cached.
         self.parse_file(file_name, text, file_type);
@@ -190,8 +193,45 @@ impl Project {
         order.push(path.to_owned());
     }
 
-    pub fn remove_file(&mut self, path: &Path) {
-        self.files.remove(&file_key(path));
+    /// Removes a file that was added to the project, and all files that were only included by it.
+    /// If the file is still included by another one, it is loaded from disk again.
+    ///
+    /// Returns the files that are no longer part of the project.
+    pub fn remove_file(&mut self, path: &Path) -> Vec<PathBuf> {
+        let path = file_key(path);
+        self.added_files.remove(&path);
+        self.files.remove(&path);
+        let including_files = self
+            .files
+            .iter()
+            .filter(|(_, file)| {
+                file.includes()
+                    .any(|include| include.path().is_ok_and(|include| include == path))
+            })
+            .map(|(file_name, _)| file_name.clone())
+            .sorted();
+        for file_name in including_files {
+            self.reparse_file(file_name);
+        }
+
+        let mut needed = HashSet::new();
+        for file in &self.added_files {
+            self.push_after_includes(file, &mut needed, &mut vec![]);
+        }
+        let mut removed = self
+            .files
+            .keys()
+            .filter(|file| !needed.contains(*file))
+            .cloned()
+            .collect_vec();
+        for file in &removed {
+            self.files.remove(file);
+        }
+        if !self.files.contains_key(&path) && !removed.contains(&path) {
+            removed.push(path);
+        }
+        self.analyze();
+        removed
     }
 
     pub fn get_diagnostics(&self, path: &Path) -> Box<dyn Iterator<Item = &Diagnostic> + '_> {
diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 1d4f808..aba14db 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -105,6 +105,10 @@ impl Backend {
             .files()
             .map(|file| file.to_owned())
             .collect_vec();
+        self.publish_diagnostics_of(file_paths).await
+    }
+
+    async fn publish_diagnostics_of(&self, file_paths: Vec<PathBuf>) {
         for file in file_paths {
             let diagnostics = self
                 .project
@@ -185,7 +189,11 @@ impl LanguageServer for Backend {
         let Some(file_path) = self.url_to_file_path(params.text_document.uri).await else {
             return;
         };
-        self.project.write().remove_file(&file_path);
+        let removed_files = self.project.write().remove_file(&file_path);
+        self.publish_diagnostics().await;
+        // Files that are not part of the project do not have any diagnostics. This clears those
+        // that the client still shows.
+        self.publish_diagnostics_of(removed_files).await
     }
 
     async fn goto_definition(
-- 
2.43.0


From f688e21ca7be6ed332d5f3d292867eb149363037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:32 +0000
Subject: [PATCH 12/24] fix: report comments, strings and references that are
 cut off at the end of a file

---
 ginko/src/dts/tokens/lexer.rs | 56 ++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index da8db0f..ea371f3 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -79,37 +79,47 @@ where
         self.reader.pos()
     }
 
+    // The file ended within a token starting with the characters `opening`.
+    fn unterminated(&self, start: Position, opening: &str) -> Token {
+        Token {
+            span: start.to(start.offset_by_char(opening.len() as i32)),
+            kind: TokenKind::Unknown(opening.as_bytes()[0]),
+            source: self.source(),
+        }
+    }
+
     // precondition: cursor is past '&' token
     // x = <&ref>
     //       ^~~ cursor is here
-    fn path_or_reference(&mut self, start: Position) -> Option<Token> {
-        let ch = self.reader.peek()?;
-        match ch {
+    fn path_or_reference(&mut self, start: Position) -> Token {
+        match self.reader.peek().unwrap_or_default() {
             b'{' => {
                 self.reader.skip();
                 let path = self.read_while(|ch| ch != b'}');
-                self.reader.consume()?;
-                Some(Token {
+                if self.reader.consume().is_none() {
+                    return self.unterminated(start, "&{");
+                }
+                Token {
                     span: start.to(self.reader.pos()),
                     kind: TokenKind::Ref(Reference::Path(String::from_utf8(path).unwrap())),
                     source: self.source(),
-                })
+                }
             }
             b'a'..=b'z' | b'A'..=b'Z' => {
                 let label = self
                     .read_while(|ch| matches!(ch, b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' | b'_'));
                 let str = String::from_utf8(label).unwrap();
-                Some(Token {
+                Token {
                     span: start.to(self.reader.pos()),
                     kind: TokenKind::Ref(Reference::Simple(str)),
                     source: self.source(),
-                })
+                }
             }
-            _ => Some(Token {
+            _ => Token {
                 span: start.to(self.reader.pos()),
                 kind: TokenKind::Ref(Reference::Simple("".to_string())),
                 source: self.source(),
-            }),
+            },
         }
     }
 
@@ -162,20 +172,22 @@ where
     // precondition: cursor is past first slash
     // /* comment */
     //  ^~~ cursor is here
-    fn multi_line_comment(&mut self, pos: Position) -> Option<Token> {
+    fn multi_line_comment(&mut self, pos: Position) -> Token {
         let mut buf: Vec<u8> = vec![];
         loop {
-            let ch = self.reader.consume()?;
+            let Some(ch) = self.reader.consume() else {
+                return self.unterminated(pos, "/*");
+            };
             match ch {
                 b'*' => {
                     if self.reader.peek() == Some(b'/') {
                         self.reader.skip();
                         let str = String::from_utf8(buf).unwrap();
-                        return Some(Token {
+                        return Token {
                             span: pos.to(self.reader.pos()),
                             kind: TokenKind::Comment(str),
                             source: self.source(),
-                        });
+                        };
                     } else {
                         buf.push(ch)
                     }
@@ -214,11 +226,13 @@ where
     // precondition: cursor is past first quote
     // "Hello, World!"
     //  ^~~ cursor is here
-    fn string(&mut self, pos: Position) -> Option<Token> {
+    fn string(&mut self, pos: Position) -> Token {
         let mut is_escaped: bool = false;
         let mut str: Vec<u8> = vec![];
         loop {
-            let ch = self.reader.consume()?;
+            let Some(ch) = self.reader.consume() else {
+                return self.unterminated(pos, "\"");
+            };
             match ch {
                 b'\\' => {
                     if is_escaped {
@@ -233,11 +247,11 @@ where
                         str.push(ch);
                         is_escaped = false;
                     } else {
-                        return Some(Token {
+                        return Token {
                             span: pos.to(self.reader.pos()),
                             kind: TokenKind::String(String::from_utf8(str).unwrap()),
                             source: self.source(),
-                        });
+                        };
                     }
                 }
                 _ => {
@@ -306,11 +320,11 @@ where
             b'0'..=b'9' => Some(self.number(start_pos)),
             b'&' => {
                 self.reader.skip();
-                self.path_or_reference(start_pos)
+                Some(self.path_or_reference(start_pos))
             }
             b'"' => {
                 self.reader.skip();
-                self.string(start_pos)
+                Some(self.string(start_pos))
             }
             b'/' => {
                 self.reader.skip();
@@ -328,7 +342,7 @@ where
                     }
                     b'*' => {
                         self.reader.skip();
-                        self.multi_line_comment(start_pos)
+                        Some(self.multi_line_comment(start_pos))
                     }
                     b'a'..=b'z' | b'A'..=b'Z' => Some(self.compiler_directive(start_pos)),
                     _ => Some(Token {
-- 
2.43.0


From 67df6a4df9d885d654568f8078d110f84ba434fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:33 +0000
Subject: [PATCH 13/24] fix: print diagnostics that span multiple lines

---
 ginko/src/dts/diagnostics.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/diagnostics.rs b/ginko/src/dts/diagnostics.rs
index 544d384..d6e74b3 100644
--- a/ginko/src/dts/diagnostics.rs
+++ b/ginko/src/dts/diagnostics.rs
@@ -172,7 +172,6 @@ impl<'a> DiagnosticPrinter<'a> {
     fn fmt_diagnostic(&self, f: &mut Formatter<'_>, diagnostic: &Diagnostic) -> std::fmt::Result {
         let start = diagnostic.span.start();
         let end = diagnostic.span.end();
-        debug_assert!(start.line() == end.line());
         let empty_string = "".to_string();
         let line = self
             .code
@@ -198,11 +197,13 @@ impl<'a> DiagnosticPrinter<'a> {
         )?;
         writeln!(f, "{} |", prefix_empty)?;
         writeln!(f, "{} | {}", prefix, line)?;
-        let len = if start.character() == end.character() {
-            1
+        // Only the first line is shown, if the diagnostic spans multiple lines
+        let end_character = if start.line() == end.line() {
+            end.character()
         } else {
-            end.character() - start.character()
+            line.encode_utf16().count() as u32
         };
+        let len = end_character.saturating_sub(start.character()).max(1);
         write!(
             f,
             "{} | {}{}",
-- 
2.43.0


From 3e87cdbd41ae76cc65e7856b95919b8c0e9a4285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 14/24] fix: the definition of an include is the start of the
 included file

---
 ginko_ls/src/server.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index aba14db..d9728c1 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -229,7 +229,8 @@ impl LanguageServer for Backend {
                 {
                     Some(url) => Ok(Some(GotoDefinitionResponse::Scalar(Location::new(
                         url,
-                        ginko_span_to_range(include.span()),
+                        // The start of the included file
+                        Range::default(),
                     )))),
                     _ => Ok(None),
                 }
-- 
2.43.0


From 23f3921996640d9dbf7ad8ffbc3c53d1402faa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:46 +0000
Subject: [PATCH 15/24] fix: keep labels of nodes that are declared more than
 once

---
 ginko/src/dts/analysis.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index 0afe595..96d03a5 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -15,7 +15,7 @@ use std::sync::Arc;
 /// Used when analyzing a device-tree
 #[derive(Clone)]
 enum Labeled {
-    Node(Arc<Node>),
+    Node(Path, Arc<Node>),
     #[allow(unused)]
     Property(Arc<Property>),
 }
@@ -48,7 +48,7 @@ pub struct AnalysisResult {
 impl AnalysisContext {
     pub fn get_node_by_label(&self, label: &str) -> Option<&Arc<Node>> {
         match self.labels.get(label) {
-            Some(Labeled::Node(node)) => Some(node),
+            Some(Labeled::Node(_, node)) => Some(node),
             _ => None,
         }
     }
@@ -83,9 +83,10 @@ impl FileContext<'_> {
     }
 
     pub fn resolve_reference(&self, label: &String) -> Option<(&Path, &Arc<Node>)> {
-        self.flat_nodes
-            .iter()
-            .find(|(_, value)| value.label.as_ref().map(|node| node.item()) == Some(label))
+        match self.labels.get(label) {
+            Some(Labeled::Node(path, node)) => Some((path, node)),
+            _ => None,
+        }
     }
 }
 
@@ -286,8 +287,10 @@ impl Analysis {
 
     pub fn analyze_node(&mut self, ctx: &mut FileContext<'_>, node: Arc<Node>, path: Path) {
         if let Some(label) = &node.label {
-            ctx.labels
-                .insert(label.item().clone(), Labeled::Node(node.clone()));
+            ctx.labels.insert(
+                label.item().clone(),
+                Labeled::Node(path.clone(), node.clone()),
+            );
         }
         ctx.flat_nodes.insert(path.clone(), node.clone());
         self.analyze_node_payload(ctx, &node.payload, path)
-- 
2.43.0


From 514d1f2bc431b06337de21979c61a9e0f1eb229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:24 +0000
Subject: [PATCH 16/24] fix: reject nodes that are nested too deeply instead of
 exhausting the stack

---
 ginko/src/dts/parser.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index b039bdb..421fae6 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -17,6 +17,9 @@ pub struct ParserContext {
     pub include_paths: Vec<PathBuf>,
 }
 
+/// Nodes that are nested deeper are rejected, since the stack is not large enough to process them.
+const MAX_NODE_DEPTH: usize = 128;
+
 /// The `Parser` class is responsible for syntactical analysis,
 /// transforming the input token stream into an AST.
 pub struct Parser<R>
@@ -26,6 +29,8 @@ where
     lexer: PeekingLexer<R>,
     pub diagnostics: Vec<Diagnostic>,
     pub context: ParserContext,
+    /// The number of nodes around the current position
+    node_depth: usize,
 }
 
 type Result<T> = std::result::Result<T, Diagnostic>;
@@ -39,6 +44,7 @@ where
             lexer: PeekingLexer::from(lexer),
             diagnostics: vec![],
             context,
+            node_depth: 0,
         }
     }
 }
@@ -54,6 +60,7 @@ impl Parser<ByteReader> {
             lexer: lexer.into(),
             diagnostics: vec![],
             context,
+            node_depth: 0,
         }
     }
 }
@@ -527,7 +534,18 @@ where
                     node_discovered = true;
                     let node_name: WithToken<NodeName> = From::from(ident);
                     self.check_is_node_name(node_name.span(), &node_name);
-                    let payload = self.node_payload()?;
+                    if self.node_depth >= MAX_NODE_DEPTH {
+                        return Err(Diagnostic::new(
+                            node_name.span(),
+                            self.lexer.source(),
+                            ErrorCode::ParserError,
+                            "Nodes are nested too deeply",
+                        ));
+                    }
+                    self.node_depth += 1;
+                    let payload = self.node_payload();
+                    self.node_depth -= 1;
+                    let payload = payload?;
                     items.push(NodeItem::Node(Arc::new(Node {
                         omit_if_no_ref,
                         name: node_name,
-- 
2.43.0


From 957a78d8b0cae2636ec88fb709f63f66432b8521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:39 +0000
Subject: [PATCH 17/24] fix: terminate when the input ends while notifications
 are pending

---
 ginko_ls/src/input.rs  | 79 ++++++++++++++++++++++++++++++++++++++++++
 ginko_ls/src/main.rs   |  8 +++--
 ginko_ls/src/server.rs | 20 +++++++----
 3 files changed, 99 insertions(+), 8 deletions(-)
 create mode 100644 ginko_ls/src/input.rs

diff --git a/ginko_ls/src/input.rs b/ginko_ls/src/input.rs
new file mode 100644
index 0000000..2bd7e0e
--- /dev/null
+++ b/ginko_ls/src/input.rs
@@ -0,0 +1,79 @@
+//! The input of the language server.
+use parking_lot::Mutex;
+use std::future::{poll_fn, Future};
+use std::pin::{pin, Pin};
+use std::sync::Arc;
+use std::task::{ready, Context, Poll, Waker};
+use tokio::io::{AsyncRead, ReadBuf};
+
+/// Tells whether the client has closed its end of the connection.
+#[derive(Clone, Default)]
+pub(crate) struct InputEnd(Arc<Mutex<EndState>>);
+
+#[derive(Default)]
+struct EndState {
+    reached: bool,
+    waiting: Vec<Waker>,
+}
+
+impl InputEnd {
+    fn reach(&self) {
+        let mut state = self.0.lock();
+        state.reached = true;
+        state.waiting.drain(..).for_each(Waker::wake);
+    }
+
+    /// Runs a future that notifies the client.
+    ///
+    /// The server does not forward notifications any more once the input has ended. Therefore, the
+    /// future is abandoned in that case since it would wait forever otherwise.
+    pub async fn unless_reached(&self, notification: impl Future<Output = ()>) {
+        let mut notification = pin!(notification);
+        poll_fn(|cx| {
+            let result = notification.as_mut().poll(cx);
+            let mut state = self.0.lock();
+            state.waiting.retain(|waker| !waker.will_wake(cx.waker()));
+            if result.is_ready() || state.reached {
+                return Poll::Ready(());
+            }
+            state.waiting.push(cx.waker().clone());
+            Poll::Pending
+        })
+        .await
+    }
+}
+
+/// An input that notices when its end is reached.
+pub(crate) struct Input<R> {
+    inner: R,
+    end: InputEnd,
+}
+
+impl<R> Input<R> {
+    pub fn new(inner: R) -> Self {
+        Input {
+            inner,
+            end: InputEnd::default(),
+        }
+    }
+
+    pub fn end(&self) -> InputEnd {
+        self.end.clone()
+    }
+}
+
+impl<R: AsyncRead + Unpin> AsyncRead for Input<R> {
+    fn poll_read(
+        mut self: Pin<&mut Self>,
+        cx: &mut Context<'_>,
+        buf: &mut ReadBuf<'_>,
+    ) -> Poll<std::io::Result<()>> {
+        let before = buf.filled().len();
+        let has_space = buf.remaining() > 0;
+        let result = ready!(Pin::new(&mut self.inner).poll_read(cx, buf));
+        if result.is_err() || has_space && buf.filled().len() == before {
+            self.end.reach();
+        }
+        Poll::Ready(result)
+    }
+}
diff --git a/ginko_ls/src/main.rs b/ginko_ls/src/main.rs
index 2cec870..f44edf6 100644
--- a/ginko_ls/src/main.rs
+++ b/ginko_ls/src/main.rs
@@ -1,6 +1,7 @@
 use clap::Parser;
 use tower_lsp::{LspService, Server};
 
+mod input;
 mod server;
 
 #[derive(Parser)]
@@ -19,8 +20,11 @@ pub async fn main() {
         .with_writer(std::io::stderr)
         .init();
 
-    let (stdin, stdout) = (tokio::io::stdin(), tokio::io::stdout());
+    let stdin = input::Input::new(tokio::io::stdin());
+    let stdout = tokio::io::stdout();
 
-    let (service, socket) = LspService::new(|client| server::Backend::new(client, include_paths));
+    let input_end = stdin.end();
+    let (service, socket) =
+        LspService::new(|client| server::Backend::new(client, include_paths, input_end));
     Server::new(stdin, stdout, socket).serve(service).await;
 }
diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index d9728c1..e72d72b 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -1,3 +1,4 @@
+use crate::input::InputEnd;
 use ginko::dts::{
     AnyDirective, FileType, HasSpan, ItemAtCursor, Node, NodeItem, NodePayload, Primary, Project,
     Severity, SeverityMap, Span,
@@ -18,10 +19,12 @@ pub(crate) struct Backend {
     severities: SeverityMap,
     /// Include paths given on the command line.
     include_paths: Vec<String>,
+    /// Notifications are only sent as long as the client is connected.
+    input_end: InputEnd,
 }
 
 impl Backend {
-    pub fn new(client: Client, include_paths: Vec<String>) -> Backend {
+    pub fn new(client: Client, include_paths: Vec<String>, input_end: InputEnd) -> Backend {
         let mut project = Project::default();
         project.set_include_paths(include_paths.clone());
         Backend {
@@ -29,6 +32,7 @@ impl Backend {
             project: RwLock::new(project),
             severities: SeverityMap::default(),
             include_paths,
+            input_end,
         }
     }
 
@@ -87,11 +91,11 @@ impl Backend {
         match url.to_file_path() {
             Ok(path) => Some(path),
             Err(_) => {
-                self.client
-                    .show_message(
+                self.input_end
+                    .unless_reached(self.client.show_message(
                         MessageType::ERROR,
                         format!("Url {url} is not a valid file path"),
-                    )
+                    ))
                     .await;
                 None
             }
@@ -116,8 +120,12 @@ impl Backend {
                 .get_diagnostics(&file)
                 .map(|diag| self.lsp_diag_from_diag(diag))
                 .collect_vec();
-            self.client
-                .publish_diagnostics(Url::from_file_path(&file).unwrap(), diagnostics, None)
+            self.input_end
+                .unless_reached(self.client.publish_diagnostics(
+                    Url::from_file_path(&file).unwrap(),
+                    diagnostics,
+                    None,
+                ))
                 .await
         }
     }
-- 
2.43.0


From 79a87964d25ad2fc0b5a83ed993654a833024056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:40 +0000
Subject: [PATCH 18/24] fix: reject documents that are not local files

---
 ginko_ls/src/server.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index e72d72b..623fabf 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -88,9 +88,14 @@ impl Backend {
     }
 
     async fn url_to_file_path(&self, url: Url) -> Option<PathBuf> {
-        match url.to_file_path() {
-            Ok(path) => Some(path),
-            Err(_) => {
+        // Other schemes (e.g., 'git') can have a path that looks like the path to a local file.
+        let file_path = match url.scheme() {
+            "file" => url.to_file_path().ok(),
+            _ => None,
+        };
+        match file_path {
+            Some(path) => Some(path),
+            None => {
                 self.input_end
                     .unless_reached(self.client.show_message(
                         MessageType::ERROR,
-- 
2.43.0


From d5c38cfaa7d7da45ebc4034d0f4aba66cc42a9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:48 +0000
Subject: [PATCH 19/24] fix: put nodes that an include file adds to a
 referenced node in place

---
 ginko/src/dts/analysis.rs | 61 ++++++++++++++++++++++++++++++++-------
 1 file changed, 50 insertions(+), 11 deletions(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index 96d03a5..1a34578 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -1,6 +1,6 @@
 use crate::dts::ast::{
-    AnyDirective, Cell, DtsFile, Include, Node, NodeItem, NodePayload, Path, Primary, Property,
-    PropertyValue, Reference, ReferencedNode, WithToken,
+    AnyDirective, Cell, DtsFile, Include, Node, NodeItem, NodeName, NodePayload, Path, Primary,
+    Property, PropertyValue, Reference, ReferencedNode, WithToken,
 };
 use crate::dts::data::{HasSource, HasSpan, Span};
 use crate::dts::error_codes::ErrorCode;
@@ -88,6 +88,51 @@ impl FileContext<'_> {
             _ => None,
         }
     }
+
+    /// Adds everything that is defined in an included file.
+    /// If that file extends a node of this file, the nodes are now put in place.
+    fn include(&mut self, included: &AnalysisContext) {
+        let mut flat_nodes = included.flat_nodes.iter().collect::<Vec<_>>();
+        // Different paths can become the same one; make sure that the result is reproducible
+        flat_nodes.sort_by_cached_key(|(path, _)| path.to_string());
+        let flat_nodes = flat_nodes
+            .into_iter()
+            .map(|(path, node)| (self.rebase(path), node.clone()))
+            .collect::<Vec<_>>();
+        let labels = included
+            .labels
+            .iter()
+            .map(|(label, labeled)| {
+                let labeled = match labeled {
+                    Labeled::Node(path, node) => Labeled::Node(self.rebase(path), node.clone()),
+                    Labeled::Property(property) => Labeled::Property(property.clone()),
+                };
+                (label.clone(), labeled)
+            })
+            .collect::<Vec<_>>();
+        self.flat_nodes.extend(flat_nodes);
+        self.labels.extend(labels);
+    }
+
+    fn rebase(&self, path: &Path) -> Path {
+        let mut elements = path.iter();
+        let base = elements
+            .next()
+            .and_then(|name| name.name.strip_prefix('&'))
+            .and_then(|label| self.resolve_reference(&label.to_string()));
+        match base {
+            Some((base, _)) => {
+                elements.fold(base.clone(), |path, name| path.with_child(name.clone()))
+            }
+            None => path.clone(),
+        }
+    }
+}
+
+/// The path of a node with a label that is not known (yet).
+/// Since no node has such a name, its children cannot be confused with other nodes.
+fn unresolved_path(label: &str) -> Path {
+    Path::empty().with_child(NodeName::simple(format!("&{label}")))
 }
 
 impl FileContext<'_> {
@@ -209,8 +254,7 @@ impl Analysis {
             ));
         }
         if let Some(context) = proj_file.context.as_ref() {
-            ctx.flat_nodes.extend(context.flat_nodes.clone());
-            ctx.labels.extend(context.labels.clone());
+            ctx.include(context);
         }
     }
 
@@ -242,7 +286,7 @@ impl Analysis {
             Reference::Label(label) => match ctx.resolve_reference(label) {
                 None => {
                     self.unresolved_reference_error(ctx, reference.span(), reference.source());
-                    Path::empty()
+                    unresolved_path(label)
                 }
                 Some((path, _)) => path.clone(),
             },
@@ -256,12 +300,7 @@ impl Analysis {
     }
 
     pub fn analyze_referenced_node(&mut self, ctx: &mut FileContext<'_>, node: &ReferencedNode) {
-        let path = if ctx.file_type == FileType::DtSource {
-            self.resolve_reference(ctx, &node.reference)
-        } else {
-            // This is an include; simply assume the 'root' path
-            Path::empty()
-        };
+        let path = self.resolve_reference(ctx, &node.reference);
         self.analyze_node_payload(ctx, &node.payload, path);
     }
 
-- 
2.43.0


From 99fa5e0c10e66b0f6d644c4d3db637b62d66a89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:46 +0000
Subject: [PATCH 20/24] fix: report the same include cycle in every run

---
 ginko/src/dts/import_guard.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ginko/src/dts/import_guard.rs b/ginko/src/dts/import_guard.rs
index d830ff3..143c318 100644
--- a/ginko/src/dts/import_guard.rs
+++ b/ginko/src/dts/import_guard.rs
@@ -25,7 +25,9 @@ pub struct ImportGuard<V>
 where
     V: Hash + Eq + Clone,
 {
-    nodes: HashMap<V, HashSet<V>>,
+    /// The dependencies in the order in which they were added,
+    /// so that the same dependencies always lead to the same error
+    nodes: HashMap<V, Vec<V>>,
     back_track: HashMap<V, HashSet<V>>,
 }
 
@@ -41,11 +43,11 @@ where
     /// * `element` The node that contains dependencies
     /// * `dependencies` The dependencies of the element.
     pub fn add(&mut self, element: V, dependencies: &[V]) -> Result<(), CyclicDependencyError<V>> {
-        self.nodes
-            .entry(element.clone())
-            .or_default()
-            .extend(dependencies.iter().cloned());
+        let known_dependencies = self.nodes.entry(element.clone()).or_default();
         for dependency in dependencies {
+            if !known_dependencies.contains(dependency) {
+                known_dependencies.push(dependency.clone());
+            }
             self.back_track
                 .entry(dependency.clone())
                 .or_default()
-- 
2.43.0


From 496f9ca6170ab58e597b1f774e643272c1365a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:09 +0000
Subject: [PATCH 21/24] fix: files that are not included any more do not affect
 how cycles are reported

---
 ginko/src/dts/project.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 9ee2870..ef5121e 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -168,6 +168,10 @@ impl Project {
         let mut order = vec![];
         let mut visited = HashSet::new();
         // Sorting makes the order reproducible, even if there are cyclic includes.
+        // Files that are not included any more come last, they must not have an influence.
+        for path in self.added_files.iter().sorted() {
+            self.push_after_includes(path, &mut visited, &mut order);
+        }
         for path in self.files.keys().sorted() {
             self.push_after_includes(path, &mut visited, &mut order);
         }
-- 
2.43.0


From 488d2700e4da923f7b55c1fdd3a1e8ea5ef62c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:34 +0000
Subject: [PATCH 22/24] fix: settings that cannot be used do not reset the
 configured include paths

---
 ginko_ls/src/server.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 623fabf..daf3496 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -51,8 +51,8 @@ struct ProjectConfig {
 }
 
 impl ProjectConfig {
-    pub fn from_value(value: Value) -> Self {
-        serde_json::from_value(value).unwrap_or_default()
+    pub fn from_value(value: Value) -> Option<Self> {
+        serde_json::from_value(value).ok()
     }
 }
 
@@ -139,8 +139,10 @@ impl Backend {
 #[tower_lsp::async_trait]
 impl LanguageServer for Backend {
     async fn initialize(&self, params: InitializeParams) -> Result<InitializeResult> {
-        let config = ProjectConfig::from_value(params.initialization_options.unwrap_or_default());
-        self.configure(config);
+        let config = params
+            .initialization_options
+            .and_then(ProjectConfig::from_value);
+        self.configure(config.unwrap_or_default());
 
         Ok(InitializeResult {
             server_info: None,
@@ -157,7 +159,11 @@ impl LanguageServer for Backend {
     }
 
     async fn did_change_configuration(&self, params: DidChangeConfigurationParams) {
-        let config = ProjectConfig::from_value(params.settings);
+        // Clients may send settings that are not meant for this server, or none at all.
+        // This does not affect what was configured before.
+        let Some(config) = ProjectConfig::from_value(params.settings) else {
+            return;
+        };
         self.configure(config);
         self.publish_diagnostics().await
     }
-- 
2.43.0


From 0e1e76f5715176fe0557971ecde085c02fca85bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:24 +0000
Subject: [PATCH 23/24] fix: the length of a chain of includes is not limited
 by the stack

---
 ginko/src/dts/project.rs | 101 ++++++++++++++++++++++++++-------------
 1 file changed, 67 insertions(+), 34 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index ef5121e..0963e7d 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -183,6 +183,26 @@ impl Project {
         path: &Path,
         visited: &mut HashSet<PathBuf>,
         order: &mut Vec<PathBuf>,
+    ) {
+        // This is not recursive, since the stack must not limit the length of a chain of includes
+        let mut stack = vec![];
+        self.push_unvisited(path, visited, &mut stack);
+        while let Some((path, includes)) = stack.last_mut() {
+            match includes.next() {
+                Some(include) => self.push_unvisited(&include, visited, &mut stack),
+                None => {
+                    order.push(std::mem::take(path));
+                    stack.pop();
+                }
+            }
+        }
+    }
+
+    fn push_unvisited(
+        &self,
+        path: &Path,
+        visited: &mut HashSet<PathBuf>,
+        stack: &mut Vec<(PathBuf, std::vec::IntoIter<PathBuf>)>,
     ) {
         // Includes that could not be loaded are not part of the project
         let Some(file) = self.files.get(path) else {
@@ -191,10 +211,8 @@ impl Project {
         if !visited.insert(path.to_owned()) {
             return;
         }
-        for include in file.includes().filter_map(|include| include.path().ok()) {
-            self.push_after_includes(&include, visited, order);
-        }
-        order.push(path.to_owned());
+        let includes = file.includes().filter_map(|include| include.path().ok());
+        stack.push((path.to_owned(), includes.collect_vec().into_iter()));
     }
 
     /// Removes a file that was added to the project, and all files that were only included by it.
@@ -319,54 +337,69 @@ impl Project {
         }
     }
 
+    /// Parses a file and all files that it includes, unless they are already known.
     fn parse_file(&mut self, file_name: PathBuf, text: String, file_type: FileType) {
-        let reader = ByteReader::from_string(text.clone());
-        let lexer = Lexer::new(reader, file_name.clone().into());
-        // add the file's directory to the include paths to allow local includes
-        let mut include_paths = self.include_paths.clone();
-        if let Some(parent) = file_name.parent() {
-            include_paths.insert(0, parent.into());
-        }
-        let mut parser = Parser::new(lexer, ParserContext { include_paths });
-        match parser.file() {
-            Ok(file) => {
-                // insert dummy file to be defined so that no cyclic dependency can occur.
-                self.files.insert(file_name.clone(), ProjectFile::default());
-                file.elements
-                    .iter()
-                    .filter_map(|primary| primary.as_include())
-                    .for_each(|include| self.parse_included_file(&mut parser.diagnostics, include));
-                self.files.insert(
-                    file_name,
-                    ProjectFile::parsed(parser.diagnostics, file, file_type, text),
-                );
+        // This is not recursive, since the stack must not limit the length of a chain of includes
+        let mut unparsed_files = vec![(file_name, text, file_type)];
+        while let Some((file_name, text, file_type)) = unparsed_files.pop() {
+            let reader = ByteReader::from_string(text.clone());
+            let lexer = Lexer::new(reader, file_name.clone().into());
+            // add the file's directory to the include paths to allow local includes
+            let mut include_paths = self.include_paths.clone();
+            if let Some(parent) = file_name.parent() {
+                include_paths.insert(0, parent.into());
             }
-            Err(err) => {
-                self.files
-                    .insert(file_name, ProjectFile::unrecoverable(err, text, file_type));
-            }
-        };
+            let mut parser = Parser::new(lexer, ParserContext { include_paths });
+            match parser.file() {
+                Ok(file) => {
+                    // insert dummy file to be defined so that no cyclic dependency can occur.
+                    self.files.insert(file_name.clone(), ProjectFile::default());
+                    file.elements
+                        .iter()
+                        .filter_map(|primary| primary.as_include())
+                        .for_each(|include| {
+                            unparsed_files
+                                .extend(self.read_included_file(&mut parser.diagnostics, include))
+                        });
+                    self.files.insert(
+                        file_name,
+                        ProjectFile::parsed(parser.diagnostics, file, file_type, text),
+                    );
+                }
+                Err(err) => {
+                    self.files
+                        .insert(file_name, ProjectFile::unrecoverable(err, text, file_type));
+                }
+            };
+        }
     }
 
-    fn parse_included_file(&mut self, diagnostics: &mut Vec<Diagnostic>, include: &Include) {
+    fn read_included_file(
+        &mut self,
+        diagnostics: &mut Vec<Diagnostic>,
+        include: &Include,
+    ) -> Option<(PathBuf, String, FileType)> {
         let canonicalized_path = match include.path() {
             Ok(path) => path,
             Err(err) => {
                 diagnostics.push(Diagnostic::io_error(include.span(), include.source(), err));
-                return;
+                return None;
             }
         };
         // Avoids duplicate insertion and cyclic dependencies
         if self.files.contains_key(&canonicalized_path) {
-            return;
+            return None;
         }
         match fs::read_to_string(&canonicalized_path) {
             Ok(text) => {
                 let typ = FileType::from(canonicalized_path.as_path());
-                self.parse_file(canonicalized_path, text, typ);
+                self.files
+                    .insert(canonicalized_path.clone(), ProjectFile::default());
+                Some((canonicalized_path, text, typ))
             }
             Err(err) => {
-                diagnostics.push(Diagnostic::io_error(include.span(), include.source(), err))
+                diagnostics.push(Diagnostic::io_error(include.span(), include.source(), err));
+                None
             }
         }
     }
-- 
2.43.0


From 58bd8995994fd35207377166e9c52574a0a30957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:39 +0000
Subject: [PATCH 24/24] fix: illegal characters in unit addresses and paths are
 reported where they are

---
 ginko/src/dts/data.rs   |  9 +++++++++
 ginko/src/dts/parser.rs | 31 ++++++++++++++++++++++---------
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/ginko/src/dts/data.rs b/ginko/src/dts/data.rs
index 89ef8e6..85793c7 100644
--- a/ginko/src/dts/data.rs
+++ b/ginko/src/dts/data.rs
@@ -122,6 +122,15 @@ impl Position {
         Span::new(*self, Position::new(self.line, col))
     }
 
+    /// The position behind a text that starts at this position.
+    pub fn behind(&self, text: &str) -> Position {
+        let line = self.line + text.matches('\n').count() as u32;
+        match text.rsplit_once('\n') {
+            Some((_, last_line)) => Position::new(line, last_line.encode_utf16().count() as u32),
+            None => self.offset_by_char(text.encode_utf16().count() as i32),
+        }
+    }
+
     pub fn offset_by_char(&self, count: i32) -> Position {
         Position::new(
             self.line,
diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 421fae6..76ff248 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -7,7 +7,7 @@ use crate::dts::diagnostics::{Diagnostic, NameContext};
 use crate::dts::error_codes::ErrorCode;
 use crate::dts::reader::{ByteReader, Reader};
 use crate::dts::tokens::{CompilerDirective, Lexer, PeekingLexer, Reference, Token, TokenKind};
-use crate::dts::HasSpan;
+use crate::dts::{HasSpan, Position};
 use itertools::Itertools;
 use std::path::{Path as StdPath, PathBuf};
 use std::sync::Arc;
@@ -80,6 +80,7 @@ where
     fn check_ident<F1, F2>(
         &mut self,
         span: Span,
+        start: Position,
         str: &str,
         predicate: F1,
         starting_chars: F2,
@@ -88,9 +89,11 @@ where
         F1: Fn(char) -> bool,
         F2: FnMut(char) -> bool,
     {
-        if let Some((pos, ch)) = str.chars().enumerate().find(|(_, ch)| !predicate(*ch)) {
+        if let Some((pos, ch)) = str.char_indices().find(|(_, ch)| !predicate(*ch)) {
+            let (before, rest) = str.split_at(pos);
+            let pos = start.behind(before);
             self.diagnostics.push(Diagnostic::new(
-                span.start().offset_by_char(pos as i32).as_char_span(),
+                pos.to(pos.behind(&rest[..ch.len_utf8()])),
                 self.lexer.source(),
                 ErrorCode::IllegalChar,
                 format!("Illegal char '{ch}' in {name_context}"),
@@ -128,6 +131,7 @@ where
     fn check_is_label(&mut self, span: Span, str: &str) {
         self.check_ident(
             span,
+            span.start(),
             str,
             |ch| matches!(ch, 'a'..='z' | 'A'..='Z' | '0'..='9' | '_'),
             |ch| matches!(ch, 'a'..='z' | 'A'..='Z' | '_'),
@@ -135,12 +139,14 @@ where
         )
     }
 
-    fn check_is_node_name(&mut self, span: Span, name: &NodeName) {
+    /// Checks the name of a node that starts at `start`, within a token at `span`.
+    fn check_is_node_name(&mut self, span: Span, start: Position, name: &NodeName) {
         if name.unit_address.is_none() && name.name == "__symbols__" {
             return;
         }
         self.check_ident(
             span,
+            start,
             name.name.as_str(),
             |ch| matches!(ch, 'a'..='z' | 'A'..='Z' | '0'..='9' | ',' | '.' | '_' | '+' | '-'),
             |ch| ch.is_ascii_alphabetic(),
@@ -149,6 +155,7 @@ where
         if let Some(unit_address) = &name.unit_address {
             self.check_ident(
                 span,
+                start.behind(&name.name).offset_by_char(1),
                 unit_address.as_str(),
                 |ch| matches!(ch, 'a'..='z' | 'A'..='Z' | '0'..='9' | ',' | '.' | '_' | '+' | '-'),
                 |_| true,
@@ -160,6 +167,7 @@ where
     fn check_is_property_name(&mut self, span: Span, str: &str) {
         self.check_ident(
             span,
+            span.start(),
             str,
             |ch| matches!(ch, 'a'..='z' | 'A'..='Z' | '0'..='9' | ',' | '.' | '_' | '+' | '-' | '?' | '#'),
             |_| true,
@@ -185,10 +193,15 @@ where
                         "Path cannot be empty",
                     ));
                 }
-                let path = Path::from(path.as_str());
-                for el in path.iter() {
-                    self.check_is_node_name(token.span(), el);
+                // The path starts behind "&{"
+                let mut start = token.start().offset_by_char(2);
+                for name in path.split('/') {
+                    if !name.is_empty() {
+                        self.check_is_node_name(token.span(), start, &NodeName::from(name));
+                    }
+                    start = start.behind(name).offset_by_char(1);
                 }
+                let path = Path::from(path.as_str());
                 WithToken::new(crate::dts::ast::Reference::Path(path), token)
             }
         }
@@ -468,7 +481,7 @@ where
         let tok = self.lexer.expect_next()?;
         if let TokenKind::Ident(value) = tok.kind.clone() {
             let node_name = NodeName::from(value);
-            self.check_is_node_name(tok.span(), &node_name);
+            self.check_is_node_name(tok.span(), tok.start(), &node_name);
             return Ok(WithToken::new(node_name, tok));
         }
         Err(Diagnostic::expected(
@@ -533,7 +546,7 @@ where
                 TokenKind::OpenBrace => {
                     node_discovered = true;
                     let node_name: WithToken<NodeName> = From::from(ident);
-                    self.check_is_node_name(node_name.span(), &node_name);
+                    self.check_is_node_name(node_name.span(), node_name.start(), &node_name);
                     if self.node_depth >= MAX_NODE_DEPTH {
                         return Err(Diagnostic::new(
                             node_name.span(),
-- 
2.43.0

