From cbbadb0e8a7b82b8517db17a3246a2b30e4c478d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 01/22] fix: check the number of arguments of calls, branches
 and jumps

The front end compared the argument list with itself, so a call with
too few arguments panicked and one with too many dropped the rest.
---
 koopa/src/front/builder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index c2ca9d4..2320596 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -503,14 +503,14 @@ impl Builder {
     args_ty: &[Type],
   ) -> Result<Vec<Value>, Error> {
     // check length of argument list
-    if args.len() != args.len() {
+    if args.len() != args_ty.len() {
       return_error!(
         span,
         "expected {} {}, found {} {}",
+        args_ty.len(),
+        "argument".to_plural(args_ty.len()),
         args.len(),
-        "arguments".to_plural(args.len()),
-        args.len(),
-        "arguments".to_plural(args.len())
+        "argument".to_plural(args.len())
       );
     }
     // generate arguments
-- 
2.43.0


From 73ef8006482a1b0217fdb5b6c2841aab2b2e50c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 02/22] fix: report jumps to undefined basic blocks instead of
 panicking

---
 koopa/src/front/builder.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index 2320596..c87cafe 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -345,12 +345,10 @@ impl Builder {
     for block in bbs {
       let last_inst = block.stmts.last().unwrap();
       let mut add_pred = |bb_name| {
-        self
-          .local_bbs
-          .get_mut(bb_name)
-          .unwrap()
-          .preds
-          .push(block.name.clone());
+        // invalid targets have been reported when collecting the block list
+        if let Some(info) = self.local_bbs.get_mut(bb_name) {
+          info.preds.push(block.name.clone());
+        }
       };
       match &last_inst.kind {
         AstKind::Branch(ast::Branch { tbb, fbb, .. }) => {
-- 
2.43.0


From d4455e4ee67aaa4f0886bd5a457a8ce5edaf5517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 03/22] fix: reject array types whose length is not positive

A zero length panicked in `Type::get_array` and a negative one wrapped
around to a huge length.
---
 koopa/src/front/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/koopa/src/front/parser.rs b/koopa/src/front/parser.rs
index cee270d..7c57548 100644
--- a/koopa/src/front/parser.rs
+++ b/koopa/src/front/parser.rs
@@ -219,7 +219,11 @@ impl<T: Read> Parser<T> {
     // check & eat ','
     self.expect(TokenKind::Other(','))?;
     // get length
-    let len = read!(self, TokenKind::Int, "length")? as usize;
+    let len_span = self.span();
+    let len = match read!(self, TokenKind::Int, "length")? {
+      len if len > 0 => len as usize,
+      len => return_error!(len_span, "invalid array length {}", len),
+    };
     // check & eat ']'
     span.update_span(self.expect(TokenKind::Other(']'))?);
     Ok(ast::ArrayType::new_boxed(span, base, len))
-- 
2.43.0


From c838103618a69f5d73177578e9895b2fe49128d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 04/22] fix: only accept aggregates that match their array type

A length mismatch was reported, but the aggregate was used anyway, which
panicked in stores.  Aggregates were also accepted for pointer types and
silently turned `alloc *i32, {1, 2}` into `alloc [i32, 2], {1, 2}`.
---
 koopa/src/front/builder.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index c87cafe..c5af3c4 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -72,7 +72,7 @@ macro_rules! generate_init {
         let $elem_ty = match $ty.kind() {
           TypeKind::Array(base, len) => {
             if *len != agg.elems.len() {
-              log_error!(
+              return_error!(
                 $ast.span,
                 "expected array length {}, found length {}",
                 len,
@@ -81,7 +81,6 @@ macro_rules! generate_init {
             }
             base
           }
-          TypeKind::Pointer(base) => base,
           _ => return_error!($ast.span, "invalid aggregate type '{}'", $ty),
         };
         let elems = agg.elems.iter().map($agg_rec).collect::<Result<_, _>>()?;
-- 
2.43.0


From 0e8fcd9682cf75a850979b8706c9a1c32356df18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 05/22] fix: report function parameters that redefine other
 symbols

A parameter named like a global variable was accepted, and references
to it resolved to the global variable; one named like a parameter of a
basic block was accepted as well.
---
 koopa/src/front/builder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index c5af3c4..4140a95 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -183,12 +183,17 @@ impl Builder {
         .collect(),
       ret_ty.clone(),
     );
+    // reset local symbol set
+    self.local_symbols.clear();
     // create argument map
     let mut args = HashMap::new();
     for ((n, a), p) in ast.params.iter().zip(self.program.func(func).params()) {
       if args.insert(n.clone(), *p).is_some() {
         log_error!(a.span, "duplicate parameter name '{}'", n);
+      } else if self.global_vars.contains_key(n) {
+        log_error!(a.span, "symbol '{}' has already been defined", n);
       }
+      self.local_symbols.insert(n.clone());
     }
     // add to global function map
     if self.global_vars.contains_key(&ast.name)
@@ -200,8 +205,6 @@ impl Builder {
         ast.name
       );
     }
-    // reset local symbol set
-    self.local_symbols.clear();
     // get basic block list
     let bbs = self.get_block_list(&ast.bbs);
     // initialize local basic block map
@@ -334,8 +337,6 @@ impl Builder {
       // insert block info to local basic block map
       self.local_bbs.insert(block.name.clone(), info);
     }
-    // add argument references local symbols
-    self.local_symbols.extend(args.keys().cloned());
     // add argument references to the entry basic block
     let entry_bb_name = &bbs[0].name;
     let entry_info = &mut self.local_bbs.get_mut(entry_bb_name).unwrap();
-- 
2.43.0


From 96f7b30b892f565a45a376834f0efc5d9736542f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 06/22] fix: do not panic when printing the source lines of a
 diagnostic

The logger panicked if a line was not valid UTF-8, if a column was not a
character boundary or past the end of the (stripped) line, or if the file
could not be opened again.
---
 koopa/src/front/span.rs | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/koopa/src/front/span.rs b/koopa/src/front/span.rs
index 58bb176..09dd8cd 100644
--- a/koopa/src/front/span.rs
+++ b/koopa/src/front/span.rs
@@ -79,12 +79,13 @@ pub struct Span {
 macro_rules! get_line_str {
   ($line:expr) => {
     $line
-      .map_or("".into(), |r| r.unwrap())
+      .and_then(|r| r.ok())
+      .unwrap_or_default()
       .replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH))
   };
   ($line:expr, $col:expr) => {{
-    let line = $line.map_or("".into(), |r| r.unwrap());
-    let col = $col as usize;
+    let line = $line.and_then(|r| r.ok()).unwrap_or_default();
+    let col = Span::clamp_col(&line, $col);
     let tabs = (&line[..col]).matches('\t').count();
     (
       line.replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH)),
@@ -92,9 +93,9 @@ macro_rules! get_line_str {
     )
   }};
   ($line:expr, $col1:expr, $col2:expr) => {{
-    let line = $line.map_or("".into(), |r| r.unwrap());
-    let col1 = $col1 as usize;
-    let col2 = $col2 as usize;
+    let line = $line.and_then(|r| r.ok()).unwrap_or_default();
+    let col1 = Span::clamp_col(&line, $col1);
+    let col2 = Span::clamp_col(&line, $col2);
     let tabs1 = (&line[..col1]).matches('\t').count();
     let tabs2 = tabs1 + (&line[col1..col2]).matches('\t').count();
     (
@@ -327,9 +328,16 @@ impl Span {
     if self.start.col > 0
       && self.end.col > 0
       && let FileType::File(path) = file
+      && let Ok(file) = File::open(path)
     {
-      // open file and get lines
-      let mut lines = BufReader::new(File::open(path).unwrap()).lines();
+      // get lines, which may contain anything
+      let mut lines = BufReader::new(file).split(b'\n').map(|line| {
+        let mut line = line?;
+        if line.last() == Some(&b'\r') {
+          line.pop();
+        }
+        Ok(String::from_utf8_lossy(&line).into_owned())
+      });
       if self.start.line == self.end.line {
         self.print_single_line_info(&mut lines, color);
       } else {
@@ -339,6 +347,17 @@ impl Span {
     eprintln!();
   }
 
+  /// Clamps the given column number to a valid index of the given line,
+  /// since columns are counted in bytes and may be past the end of line.
+  #[cfg(not(feature = "no-front-logger"))]
+  fn clamp_col(line: &str, col: u32) -> usize {
+    let mut col = line.len().min(col as usize);
+    while !line.is_char_boundary(col) {
+      col -= 1;
+    }
+    col
+  }
+
   /// Prints the single line information.
   ///
   /// Used by method `print_file_info`.
@@ -351,8 +370,8 @@ impl Span {
     let line_num = self.start.line as usize;
     let (line, c1, c2) = get_line_str!(lines.nth(line_num - 1), self.start.col, self.end.col);
     let width = ((line_num + 1) as f32).log10().ceil() as usize;
-    let leading = c1 - 1;
-    let len = c2 - c1 + 1;
+    let leading = c1.saturating_sub(1);
+    let len = c2.saturating_sub(c1) + 1;
     // print the current line to stderr
     eprintln!("{:w$} {}", "", "|".blue(), w = width);
     eprint!("{} ", format!("{:w$}", line_num, w = width).blue());
-- 
2.43.0


From b52649915e3246b316d046a76387c23af3e2026e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 07/22] fix: skip comments iteratively

The lexer recursed once per comment, so a long run of consecutive
comments overflowed the stack.
---
 koopa/src/front/lexer.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/koopa/src/front/lexer.rs b/koopa/src/front/lexer.rs
index 19ec9e5..aed8ffa 100644
--- a/koopa/src/front/lexer.rs
+++ b/koopa/src/front/lexer.rs
@@ -32,16 +32,17 @@ impl<T: Read> Lexer<T> {
 
   /// Returns the next token from file, or a lexer error.
   pub fn next_token(&mut self) -> Result {
-    // skip spaces
-    while self.last_char.is_some_and(|c| c.is_whitespace()) {
-      self.next_char()?;
+    // skip spaces and comments
+    while self.last_char.is_some_and(|c| c.is_whitespace() || c == '/') {
+      if self.last_char == Some('/') {
+        self.handle_comment()?;
+      } else {
+        self.next_char()?;
+      }
     }
     // check the last character
     if let Some(c) = self.last_char {
-      if c == '/' {
-        // skip comments
-        self.handle_comment()
-      } else if c == '@' || c == '%' {
+      if c == '@' || c == '%' {
         // symbols
         self.handle_symbol()
       } else if c.is_alphabetic() {
@@ -167,7 +168,7 @@ impl<T: Read> Lexer<T> {
   }
 
   /// Handles comments.
-  fn handle_comment(&mut self) -> Result {
+  fn handle_comment(&mut self) -> std::result::Result<(), Error> {
     let span = Span::new(self.pos);
     // eat '/'
     self.next_char()?;
@@ -179,15 +180,16 @@ impl<T: Read> Lexer<T> {
       while self.last_char.is_some_and(|c| c != '\r' && c != '\n') {
         self.next_char()?;
       }
-      // return the next token
-      self.next_token()
+      Ok(())
     } else {
-      self.log_err_and_skip(span.into_updated(self.pos), "invalid comment")
+      self
+        .log_err_and_skip(span.into_updated(self.pos), "invalid comment")
+        .map(|_| ())
     }
   }
 
   /// Handles block comments.
-  fn handle_block_comment(&mut self, span: Span) -> Result {
+  fn handle_block_comment(&mut self, span: Span) -> std::result::Result<(), Error> {
     // eat '*'
     self.next_char()?;
     // read until there is '*/' in stream
@@ -198,11 +200,12 @@ impl<T: Read> Lexer<T> {
     }
     // check unclosed block comment
     if self.last_char.is_none() {
-      self.log_err_and_skip(span.into_updated(self.pos), "comment unclosed at EOF")
+      self
+        .log_err_and_skip(span.into_updated(self.pos), "comment unclosed at EOF")
+        .map(|_| ())
     } else {
       // eat '/'
-      self.next_char()?;
-      self.next_token()
+      self.next_char()
     }
   }
 
-- 
2.43.0


From 2394aaf3a4686d60950997e3ba83f2e588fcf40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:33 +0000
Subject: [PATCH 08/22] fix: never generate the same temporary name twice

---
 koopa/src/back/generator.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index aa0060b..30d8732 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -136,18 +136,22 @@ impl NameManager {
   /// and stores it to the given name set.
   fn next_name<F>(&mut self, name: &Option<String>, name_set: F) -> Rc<String>
   where
-    F: for<'a> FnOnce(&'a mut Self) -> &'a mut HashSet<StringRc>,
+    F: for<'a> Fn(&'a mut Self) -> &'a mut HashSet<StringRc>,
   {
     // check if there is a name
     if let Some(name) = name {
       self.next_name_str(name, name_set)
     } else {
-      // generate a temporary name
-      let name = self.prefix.temp_name(self.next_id);
-      self.next_id += 1;
-      let names = name_set(self);
-      names.insert(name.clone().into());
-      names.get(&name).unwrap().to_rc()
+      // generate a temporary name that is not in use
+      loop {
+        let name = self.prefix.temp_name(self.next_id);
+        self.next_id += 1;
+        let names = name_set(self);
+        if !names.contains(&name) {
+          names.insert(name.clone().into());
+          return names.get(&name).unwrap().to_rc();
+        }
+      }
     }
   }
 
@@ -155,14 +159,18 @@ impl NameManager {
   /// and stores it to the given name set.
   fn next_name_str<F>(&mut self, name: &str, name_set: F) -> Rc<String>
   where
-    F: for<'a> FnOnce(&'a mut Self) -> &'a mut HashSet<StringRc>,
+    F: for<'a> Fn(&'a mut Self) -> &'a mut HashSet<StringRc>,
   {
+    let is_temp = matches!(self.prefix, Prefix::Default) && is_temp_name(name);
     let name = self.prefix.name(name);
     let names = name_set(self);
     // check for duplicate names
     if !names.contains(&name) {
       names.insert(name.clone().into());
       names.get(&name).unwrap().to_rc()
+    } else if is_temp {
+      // temporary names can not have suffixes
+      self.next_name(&None, name_set)
     } else {
       // generate a new name
       for id in 0.. {
@@ -177,6 +185,13 @@ impl NameManager {
   }
 }
 
+/// Returns `true` if the given name is a temporary name, i.e. `%[0-9]+`.
+fn is_temp_name(name: &str) -> bool {
+  name
+    .strip_prefix('%')
+    .is_some_and(|id| !id.is_empty() && id.bytes().all(|b| b.is_ascii_digit()))
+}
+
 /// Kind of scope.
 #[derive(Clone, Copy, Default)]
 enum ScopeKind {
-- 
2.43.0


From 03bc9011598d0153a02f9679fc9aa826beccefc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:36 +0000
Subject: [PATCH 09/22] fix: do not panic when truncating names that are not
 ASCII

---
 koopa/src/back/generator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index 30d8732..a738393 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -239,7 +239,12 @@ impl Prefix {
           format!("{}{}", temp, &name[1..])
         };
         if let Some(max_len) = max_len {
-          name.truncate(max_len.get());
+          // truncate at a character boundary
+          let mut len = name.len().min(max_len.get());
+          while !name.is_char_boundary(len) {
+            len -= 1;
+          }
+          name.truncate(len);
         }
         name
       }
-- 
2.43.0


From 695ccdf74cf7c64174cba01aca036518a8c5fe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:36 +0000
Subject: [PATCH 10/22] fix: name functions before generating function bodies

---
 koopa/src/back/koopa.rs | 5 +++++
 koopa/src/back/llvm.rs  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/koopa/src/back/koopa.rs b/koopa/src/back/koopa.rs
index 38c8afe..b437b83 100644
--- a/koopa/src/back/koopa.rs
+++ b/koopa/src/back/koopa.rs
@@ -57,6 +57,11 @@ impl<W: Write> VisitorImpl<'_, W> {
     if !self.program.inst_layout().is_empty() {
       writeln!(self.w)?;
     }
+    // name all of the functions first, because a function
+    // may be called before its definition
+    for func in self.program.func_layout() {
+      self.nm.func_name(self.program.func(*func));
+    }
     for (i, func) in self.program.func_layout().iter().enumerate() {
       if i != 0 {
         writeln!(self.w)?;
diff --git a/koopa/src/back/llvm.rs b/koopa/src/back/llvm.rs
index 2fec584..5ac253b 100644
--- a/koopa/src/back/llvm.rs
+++ b/koopa/src/back/llvm.rs
@@ -78,6 +78,11 @@ impl<W: Write> VisitorImpl<'_, W> {
     if !self.program.inst_layout().is_empty() {
       writeln!(self.w)?;
     }
+    // name all of the functions first, because a function
+    // may be called before its definition
+    for func in self.program.func_layout() {
+      self.nm.func_name(self.program.func(*func));
+    }
     // functions
     for (i, func) in self.program.func_layout().iter().enumerate() {
       if i != 0 {
-- 
2.43.0


From 621c37ab9febca872f01975db4898c817da7489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:37 +0000
Subject: [PATCH 11/22] fix: never use the same name for labels and values in
 LLVM IR

---
 koopa/src/back/generator.rs | 19 ++++++++++++++++++-
 koopa/src/back/llvm.rs      |  2 ++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index a738393..6e4b89d 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -21,6 +21,7 @@ pub struct NameManager {
   next_id: usize,
   cur_scope: ScopeKind,
   prefix: Prefix,
+  share_local_names: bool,
   global_names: HashSet<StringRc>,
   bb_names: HashSet<StringRc>,
   global_vars: HashMap<*const ValueData, Rc<String>>,
@@ -63,6 +64,11 @@ impl NameManager {
     );
     self.cur_scope = ScopeKind::Global;
     self.bb_names.clear();
+    if self.share_local_names {
+      for name in self.bbs.values() {
+        self.global_names.remove(name);
+      }
+    }
     self.bbs.clear();
     for name in self.values.values() {
       self.global_names.remove(name);
@@ -74,6 +80,11 @@ impl NameManager {
     self.prefix = prefix;
   }
 
+  /// Sets if basic blocks and values share the same namespace.
+  pub(crate) fn set_share_local_names(&mut self, share: bool) {
+    self.share_local_names = share;
+  }
+
   /// Returns the name of the given function.
   pub fn func_name(&mut self, func: &FunctionData) -> Rc<String> {
     let ptr: *const FunctionData = func;
@@ -92,7 +103,13 @@ impl NameManager {
     if let Some(name) = self.bbs.get(&ptr) {
       name.clone()
     } else {
-      let name = self.next_name(bb.name(), |s| &mut s.bb_names);
+      let name = self.next_name(bb.name(), |s| {
+        if s.share_local_names {
+          &mut s.global_names
+        } else {
+          &mut s.bb_names
+        }
+      });
       self.bbs.insert(ptr, name);
       self.bbs[&ptr].clone()
     }
diff --git a/koopa/src/back/llvm.rs b/koopa/src/back/llvm.rs
index 5ac253b..bc4d64b 100644
--- a/koopa/src/back/llvm.rs
+++ b/koopa/src/back/llvm.rs
@@ -66,6 +66,8 @@ impl<W: Write> VisitorImpl<'_, W> {
 
   /// Visits the program.
   fn visit(&mut self) -> Result<()> {
+    // labels and local values are in the same namespace
+    self.nm.set_share_local_names(true);
     // global values
     self.nm.set_prefix(Prefix::Custom {
       named: "@".into(),
-- 
2.43.0


From 68e4bd5639886ac558a404e3c350dbc9d3417844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:37 +0000
Subject: [PATCH 12/22] fix: always print types of aggregate elements in LLVM
 IR

---
 koopa/src/back/llvm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koopa/src/back/llvm.rs b/koopa/src/back/llvm.rs
index bc4d64b..cc442d5 100644
--- a/koopa/src/back/llvm.rs
+++ b/koopa/src/back/llvm.rs
@@ -449,7 +449,7 @@ impl<W: Write> VisitorImpl<'_, W> {
           if i != 0 {
             write!(self.w, ", ")?;
           }
-          self.visit_local_const(with_ty, value!(self, *elem))?;
+          self.visit_local_const(true, value!(self, *elem))?;
         }
         write!(self.w, "]")
       }
-- 
2.43.0


From 7f80e6ed6464279b471fd2afe8a6f6ef8c4dc165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:38 +0000
Subject: [PATCH 13/22] fix: do not panic when removing functions that do not
 exist

---
 koopa/src/ir/entities.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/koopa/src/ir/entities.rs b/koopa/src/ir/entities.rs
index b879e47..b8f6ce4 100644
--- a/koopa/src/ir/entities.rs
+++ b/koopa/src/ir/entities.rs
@@ -181,9 +181,7 @@ impl Program {
   /// Returns the function data if the function was previously in the program.
   pub fn remove_func(&mut self, func: Function) -> Option<FunctionData> {
     self.func_tys.borrow_mut().remove(&func);
-    self
-      .func_layout
-      .remove(self.func_layout.iter().position(|f| *f == func).unwrap());
+    self.func_layout.retain(|f| *f != func);
     self.funcs.remove(&func)
   }
 
-- 
2.43.0


From 500ff48e1cfd9ab723e8c73d1b3b15e610ac8277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:33 +0000
Subject: [PATCH 14/22] fix: forget the parents of instructions in removed
 basic blocks

Removing or clearing basic blocks and clearing instruction lists left
stale parent information behind, and removing an instruction from its
old basic block forgot the new one.
---
 koopa/src/ir/layout.rs | 48 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/koopa/src/ir/layout.rs b/koopa/src/ir/layout.rs
index badf26c..69c7498 100644
--- a/koopa/src/ir/layout.rs
+++ b/koopa/src/ir/layout.rs
@@ -7,6 +7,7 @@ use std::borrow::Borrow;
 use std::cell::RefCell;
 use std::collections::{HashMap, hash_map::Entry};
 use std::hash::Hash;
+use std::iter::once;
 use std::rc::{Rc, Weak};
 
 /// Layout of instructions and basic blocks in a function.
@@ -82,6 +83,24 @@ pub type BasicBlockList = KeyNodeList<BasicBlock, BasicBlockNode, BasicBlockMap>
 
 type InstBBCell = Weak<RefCell<HashMap<Value, BasicBlock>>>;
 
+/// Removes the parent information of the given instructions
+/// that have been removed from the given basic block.
+fn remove_parent_bb<'a>(
+  inst_bb: &InstBBCell,
+  bb: BasicBlock,
+  insts: impl Iterator<Item = &'a Value>,
+) {
+  if let Some(inst_bb) = inst_bb.upgrade() {
+    let mut inst_bb = inst_bb.borrow_mut();
+    for inst in insts {
+      // the instruction may have been moved to another basic block
+      if inst_bb.get(inst) == Some(&bb) {
+        inst_bb.remove(inst);
+      }
+    }
+  }
+}
+
 /// The underlying hash map of the [`BasicBlockList`].
 pub struct BasicBlockMap {
   inst_bb: InstBBCell,
@@ -103,6 +122,8 @@ impl Map<BasicBlock, BasicBlockNode> for BasicBlockMap {
   }
 
   fn clear(&mut self) {
+    // instructions in the removed basic blocks leave the layout
+    self.map.values().for_each(|node| node.leave_layout());
     self.map.clear()
   }
 
@@ -140,13 +161,20 @@ impl Map<BasicBlock, BasicBlockNode> for BasicBlockMap {
     BasicBlock: Borrow<Q>,
     Q: ?Sized + Hash + Eq,
   {
-    self.map.remove_entry(k)
+    let kv = self.map.remove_entry(k);
+    if let Some((_, node)) = &kv {
+      // instructions in the removed basic block leave the layout
+      node.leave_layout();
+    }
+    kv
   }
 }
 
 /// The node in [`BasicBlockList`] that holds the instruction list
 /// ([`InstList`]) in the basic block.
 pub struct BasicBlockNode {
+  bb: BasicBlock,
+  inst_bb: InstBBCell,
   insts: InstList,
   prev: Option<BasicBlock>,
   next: Option<BasicBlock>,
@@ -157,12 +185,19 @@ impl_node!(BasicBlockNode { Key = BasicBlock, prev = prev, next = next });
 impl BasicBlockNode {
   fn new(bb: BasicBlock, inst_bb: InstBBCell) -> Self {
     Self {
+      bb,
+      inst_bb: inst_bb.clone(),
       insts: InstList::with_map(InstMap::new(bb, inst_bb)),
       prev: None,
       next: None,
     }
   }
 
+  /// Removes the parent information of all instructions in this node.
+  fn leave_layout(&self) {
+    remove_parent_bb(&self.inst_bb, self.bb, self.insts.keys());
+  }
+
   /// Returns a reference to the instruction list.
   pub fn insts(&self) -> &InstList {
     &self.insts
@@ -222,6 +257,7 @@ impl Map<Value, InstNode> for InstMap {
   }
 
   fn clear(&mut self) {
+    remove_parent_bb(&self.inst_bb, self.bb, self.map.keys());
     self.map.clear()
   }
 
@@ -266,14 +302,8 @@ impl Map<Value, InstNode> for InstMap {
     Q: ?Sized + Hash + Eq,
   {
     let kv = self.map.remove_entry(k);
-    if kv.is_some() {
-      self
-        .inst_bb
-        .upgrade()
-        .unwrap()
-        .as_ref()
-        .borrow_mut()
-        .remove(k);
+    if let Some((inst, _)) = &kv {
+      remove_parent_bb(&self.inst_bb, self.bb, once(inst));
     }
     kv
   }
-- 
2.43.0


From e413d4dd556c84bc8f8d8473cd3190369a757660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 15/22] fix: only fill the users of raw values that have just
 been built

`build_on` panicked if the builder had built another program before, or
if any user of a value was not in the layout.
---
 libkoopa/src/raw/builder.rs | 38 ++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/libkoopa/src/raw/builder.rs b/libkoopa/src/raw/builder.rs
index e93dfdf..201791a 100644
--- a/libkoopa/src/raw/builder.rs
+++ b/libkoopa/src/raw/builder.rs
@@ -37,28 +37,28 @@ impl RawProgramBuilder {
       rpb: PhantomData,
     };
     // fill `used_by` fields of all values
-    let slices: Vec<_> = self
-      .values
-      .keys()
-      .map(|value| {
-        let v: Vec<_> = info.value_used_by[value]
-          .iter()
-          .map(|v| self.values[v].get() as *const ())
-          .collect();
-        let slice = RawSlice {
-          buffer: v.as_ptr() as *const c_void,
-          len: v.len() as u32,
-          kind: RawSliceItemKind::Value,
-        };
-        self.slices.push(v);
-        slice
-      })
-      .collect();
-    for (data, slice) in self.values.values_mut().zip(slices.into_iter()) {
-      data.get_mut().used_by = slice;
+    for (value, used_by) in info.value_used_by {
+      let slice = self.used_by_slice(&used_by);
+      self.values.get_mut(&value).unwrap().get_mut().used_by = slice;
     }
     raw
   }
+
+  /// Creates a new raw slice for the given `used_by` list.
+  /// Users that are not in the raw program will be ignored.
+  fn used_by_slice(&mut self, used_by: &[Value]) -> RawSlice {
+    let v: Vec<_> = used_by
+      .iter()
+      .filter_map(|v| self.values.get(v).map(|v| v.get() as *const ()))
+      .collect();
+    let slice = RawSlice {
+      buffer: v.as_ptr() as *const c_void,
+      len: v.len() as u32,
+      kind: RawSliceItemKind::Value,
+    };
+    self.slices.push(v);
+    slice
+  }
 }
 
 /// Some necessary information required by the [`BuildRaw`] trait.
-- 
2.43.0


From 1ba77b09de2380d484fc6e1f721e6ddecef73475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 16/22] fix: build raw functions and basic blocks one by one

Building the target of a jump while building the jump overflowed the
stack on functions with thousands of basic blocks.
---
 libkoopa/src/raw/builder.rs | 51 +++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/libkoopa/src/raw/builder.rs b/libkoopa/src/raw/builder.rs
index 201791a..2b3b786 100644
--- a/libkoopa/src/raw/builder.rs
+++ b/libkoopa/src/raw/builder.rs
@@ -5,7 +5,7 @@ use koopa::ir::values::*;
 use koopa::ir::{BasicBlock, Function, FunctionData, Program, Type, TypeKind};
 use koopa::ir::{BinaryOp, Value, ValueKind};
 use std::cell::UnsafeCell;
-use std::collections::HashMap;
+use std::collections::{HashMap, VecDeque};
 use std::ffi::CString;
 use std::marker::PhantomData;
 use std::os::raw::{c_char, c_void};
@@ -36,7 +36,24 @@ impl RawProgramBuilder {
       funcs: iter_into_raw(program.func_layout().iter(), self, &mut info),
       rpb: PhantomData,
     };
-    // fill `used_by` fields of all values
+    // build functions
+    while let Some(func) = info.pending_funcs.pop_front() {
+      let func_data = program.func(func);
+      info.cur_func = Some(func_data);
+      let data = func_data.build(self, &mut info);
+      **self.funcs.get_mut(&func).unwrap() = data;
+      // build basic blocks in the current function
+      while let Some(bb) = info.pending_bbs.pop_front() {
+        info.cur_bb = Some(bb);
+        let data = func_data.dfg().bb(bb).build(self, &mut info);
+        **self.bbs.get_mut(&bb).unwrap() = data;
+      }
+    }
+    // fill `used_by` fields of all basic blocks and values
+    for (bb, used_by) in info.bb_used_by {
+      let slice = self.used_by_slice(&used_by);
+      self.bbs.get_mut(&bb).unwrap().used_by = slice;
+    }
     for (value, used_by) in info.value_used_by {
       let slice = self.used_by_slice(&used_by);
       self.values.get_mut(&value).unwrap().get_mut().used_by = slice;
@@ -66,6 +83,9 @@ struct ProgramInfo<'a> {
   program: &'a Program,
   cur_func: Option<&'a FunctionData>,
   cur_bb: Option<BasicBlock>,
+  pending_funcs: VecDeque<Function>,
+  pending_bbs: VecDeque<BasicBlock>,
+  bb_used_by: HashMap<BasicBlock, Vec<Value>>,
   value_used_by: HashMap<Value, Vec<Value>>,
 }
 
@@ -75,6 +95,9 @@ impl<'a> ProgramInfo<'a> {
       program,
       cur_func: None,
       cur_bb: None,
+      pending_funcs: VecDeque::new(),
+      pending_bbs: VecDeque::new(),
+      bb_used_by: HashMap::new(),
       value_used_by: HashMap::new(),
     }
   }
@@ -199,14 +222,10 @@ impl BuildRaw for Function {
     if let Some(f) = builder.funcs.get(self) {
       f.as_ref()
     } else {
+      // the function will be built later
       builder.funcs.insert(*self, unsafe { new_uninit_box() });
-      let func = info.program.func(*self);
-      let last_func = info.cur_func.replace(func);
-      let f = func.build(builder, info);
-      info.cur_func = last_func;
-      let fb = builder.funcs.get_mut(self).unwrap();
-      **fb = f;
-      fb.as_ref()
+      info.pending_funcs.push_back(*self);
+      builder.funcs[self].as_ref()
     }
   }
 }
@@ -233,13 +252,10 @@ impl BuildRaw for BasicBlock {
     if let Some(b) = builder.bbs.get(self) {
       b.as_ref()
     } else {
+      // the basic block will be built later
       builder.bbs.insert(*self, unsafe { new_uninit_box() });
-      let last_bb = info.cur_bb.replace(*self);
-      let b = info.cur_func.unwrap().dfg().bb(*self).build(builder, info);
-      info.cur_bb = last_bb;
-      let bb = builder.bbs.get_mut(self).unwrap();
-      **bb = b;
-      bb.as_ref()
+      info.pending_bbs.push_back(*self);
+      builder.bbs[self].as_ref()
     }
   }
 }
@@ -248,10 +264,13 @@ impl BuildRaw for BasicBlockData {
   type Raw = RawBasicBlockData;
 
   fn build(&self, builder: &mut RawProgramBuilder, info: &mut ProgramInfo) -> Self::Raw {
+    // insert `used_by` list to info
+    let used_by = self.used_by().iter().copied().collect();
+    info.bb_used_by.insert(info.cur_bb.unwrap(), used_by);
     RawBasicBlockData {
       name: self.name().build(builder, info),
       params: iter_into_raw(self.params().iter(), builder, info),
-      used_by: iter_into_raw(self.used_by().iter(), builder, info),
+      used_by: RawSlice::default(),
       insts: {
         let node = &info.cur_func.unwrap().layout().bbs()[&info.cur_bb.unwrap()];
         iter_into_raw(node.insts().keys(), builder, info)
-- 
2.43.0


From a200994d657f5baf2f4ea7134225dcb89fd3cefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 17/22] fix: do not use global constants in functions generated
 from raw

Functions that share raw constants with global initializers were
generated with values that do not belong to them.
---
 libkoopa/src/raw/generator.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/libkoopa/src/raw/generator.rs b/libkoopa/src/raw/generator.rs
index 0e2b9ba..a950b49 100644
--- a/libkoopa/src/raw/generator.rs
+++ b/libkoopa/src/raw/generator.rs
@@ -325,19 +325,18 @@ impl GenerateOnRaw for RawValue {
   type Entity = Value;
 
   fn generate(&self, program: &mut Program, info: &mut ProgramInfo) -> Result<Self::Entity> {
+    let raw = unsafe { &**self };
     // try to find value in cache
-    let value = info.values.get(self).or_else(|| {
-      if info.cur_func.is_null() {
-        None
-      } else {
-        info.cur_func_info().values.get(self)
-      }
-    });
+    // global constants can not be used by values in functions
+    let value = if info.cur_func.is_null() || matches!(raw.kind, RawValueKind::GlobalAlloc(_)) {
+      info.values.get(self)
+    } else {
+      info.cur_func_info().values.get(self)
+    };
     if let Some(v) = value {
       Ok(*v)
     } else {
       // generate value
-      let raw = unsafe { &**self };
       let value = match &raw.kind {
         RawValueKind::Integer(v) => v.generate(program, info)?,
         RawValueKind::Aggregate(v) => v.generate(program, info)?,
-- 
2.43.0


From a464f65193d9d0000ade43e8e3e957b532f076a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 18/22] fix: keep the order of functions and basic blocks in
 raw programs

Functions and basic blocks were generated when they were first used,
which put them in another order than the raw program has, panicked on
basic blocks using arguments of later ones, and overflowed the stack on
functions with thousands of basic blocks.
---
 libkoopa/src/raw/generator.rs | 41 ++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/libkoopa/src/raw/generator.rs b/libkoopa/src/raw/generator.rs
index a950b49..2d1794b 100644
--- a/libkoopa/src/raw/generator.rs
+++ b/libkoopa/src/raw/generator.rs
@@ -3,10 +3,9 @@ use super::entities::*;
 use crate::errors::ErrorCode;
 use koopa::ir::builder_traits::*;
 use koopa::ir::{BasicBlock, BinaryOp, Function, Program, Type, TypeKind, Value};
-use std::collections::HashMap;
+use std::collections::{HashMap, VecDeque};
 use std::ffi::CStr;
 use std::marker::PhantomData;
-use std::mem::replace;
 use std::os::raw::c_char;
 use std::ptr::null;
 
@@ -25,6 +24,8 @@ struct ProgramInfo {
   values: HashMap<RawValue, Value>,
   funcs: HashMap<RawFunction, FunctionInfo>,
   cur_func: RawFunction,
+  pending_funcs: VecDeque<RawFunction>,
+  pending_bbs: VecDeque<(RawBasicBlock, BasicBlock)>,
 }
 
 impl ProgramInfo {
@@ -34,6 +35,8 @@ impl ProgramInfo {
       values: HashMap::new(),
       funcs: HashMap::new(),
       cur_func: null(),
+      pending_funcs: VecDeque::new(),
+      pending_bbs: VecDeque::new(),
     }
   }
 
@@ -206,6 +209,23 @@ impl GenerateOnRaw for RawProgram<'_> {
     for func in self.funcs.funcs()? {
       func.generate(program, info)?;
     }
+    // generate function bodies
+    while let Some(func) = info.pending_funcs.pop_front() {
+      info.cur_func = func;
+      for bb in unsafe { &*func }.bbs.bbs()? {
+        bb.generate(program, info)?;
+      }
+      // generate instructions in basic blocks
+      while let Some((raw, bb)) = info.pending_bbs.pop_front() {
+        for inst in unsafe { &*raw }.insts.values()? {
+          let inst = inst.generate(program, info)?;
+          // insert to the current basic block
+          let layout = program.func_mut(info.cur_func_info().func).layout_mut();
+          layout.bb_mut(bb).insts_mut().push_key_back(inst).unwrap();
+        }
+      }
+    }
+    info.cur_func = null();
     Ok(())
   }
 }
@@ -263,13 +283,9 @@ impl GenerateOnRaw for RawFunction {
         .collect();
       // insert to function map
       info.funcs.insert(*self, FunctionInfo::new(func, values));
-      // generate basic blocks
+      // basic blocks will be generated later
       if raw.bbs.len != 0 {
-        let last_func = replace(&mut info.cur_func, *self);
-        for bb in raw.bbs.bbs()? {
-          bb.generate(program, info)?;
-        }
-        info.cur_func = last_func;
+        info.pending_funcs.push_back(*self);
       }
       Ok(func)
     }
@@ -309,13 +325,8 @@ impl GenerateOnRaw for RawBasicBlock {
       raw.params.values()?.zip(params).for_each(|(rp, p)| {
         func_info.values.insert(rp, *p);
       });
-      // generate instructions
-      for inst in raw.insts.values()? {
-        let inst = inst.generate(program, info)?;
-        // insert to the current basic block
-        let layout = program.func_mut(info.cur_func_info().func).layout_mut();
-        layout.bb_mut(bb).insts_mut().push_key_back(inst).unwrap();
-      }
+      // instructions will be generated later
+      info.pending_bbs.push_back((*self, bb));
       Ok(bb)
     }
   }
-- 
2.43.0


From 183d8496900d5da9e640b64232de0a4b125016cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 19/22] fix: ignore jumps outside the layout when generating
 phi functions

---
 koopa/src/back/llvm.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/koopa/src/back/llvm.rs b/koopa/src/back/llvm.rs
index cc442d5..3da2c1d 100644
--- a/koopa/src/back/llvm.rs
+++ b/koopa/src/back/llvm.rs
@@ -176,7 +176,13 @@ impl<W: Write> VisitorImpl<'_, W> {
       write!(self.w, "  {} = phi ", self.nm.value_name(param))?;
       self.visit_type(param.ty())?;
       write!(self.w, " ")?;
-      for (k, user) in data.used_by().iter().enumerate() {
+      // users that are not in the layout are not predecessors
+      let layout = func!(self).layout();
+      let preds = data
+        .used_by()
+        .iter()
+        .filter_map(|user| layout.parent_bb(*user).map(|bb| (user, bb)));
+      for (k, (user, pred)) in preds.enumerate() {
         if k != 0 {
           write!(self.w, ", ")?;
         }
@@ -193,7 +199,7 @@ impl<W: Write> VisitorImpl<'_, W> {
           _ => panic!("invalid branch/jump instruction"),
         }
         write!(self.w, ", ")?;
-        self.visit_bb_ref(func!(self).layout().parent_bb(*user).unwrap())?;
+        self.visit_bb_ref(pred)?;
         write!(self.w, "]")?;
       }
       writeln!(self.w)?;
-- 
2.43.0


From 84ad836339bab7167a8ec79fc4edc103765ff882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 20/22] fix: do not extend spans of branches and jumps without
 arguments to the next token

---
 koopa/src/front/parser.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/koopa/src/front/parser.rs b/koopa/src/front/parser.rs
index 7c57548..af401ce 100644
--- a/koopa/src/front/parser.rs
+++ b/koopa/src/front/parser.rs
@@ -427,11 +427,12 @@ impl<T: Read> Parser<T> {
     // check & eat ','
     self.expect(TokenKind::Other(','))?;
     // get false target basic block
+    let sp_fbb = self.span();
     let fbb = read!(self, TokenKind::Symbol, "basic block name")?;
     // get false target basic block arguments
     let (fargs, sp) = self.parse_opt_list(|s| s.parse_value())?;
     Ok(ast::Branch::new_boxed(
-      span.into_updated_span(sp),
+      span.into_updated_span(sp.unwrap_or(sp_fbb)),
       cond,
       tbb,
       targs,
@@ -446,11 +447,12 @@ impl<T: Read> Parser<T> {
     // eat 'jump'
     self.next_token()?;
     // get target basic block
+    let sp_target = self.span();
     let target = read!(self, TokenKind::Symbol, "basic block name")?;
     // get target basic block arguments
     let (args, sp) = self.parse_opt_list(|s| s.parse_value())?;
     Ok(ast::Jump::new_boxed(
-      span.into_updated_span(sp),
+      span.into_updated_span(sp.unwrap_or(sp_target)),
       target,
       args,
     ))
@@ -578,15 +580,21 @@ impl<T: Read> Parser<T> {
   }
 
   /// Parses optional comma-separated lists.
-  fn parse_opt_list<F, U>(&mut self, parser: F) -> std::result::Result<(Vec<U>, Span), Error>
+  ///
+  /// Returns the parsed list, and its span if there is a list.
+  fn parse_opt_list<F, U>(
+    &mut self,
+    parser: F,
+  ) -> std::result::Result<(Vec<U>, Option<Span>), Error>
   where
     F: Fn(&mut Self) -> std::result::Result<U, Error>,
   {
     // check left bracket
     if self.is_token(TokenKind::Other('(')) {
-      self.parse_list(parser)
+      let (list, span) = self.parse_list(parser)?;
+      Ok((list, Some(span)))
     } else {
-      Ok((Vec::new(), self.span()))
+      Ok((Vec::new(), None))
     }
   }
 
-- 
2.43.0


From 044be145ea2d79aeb7afdf51a01f14aadd47747a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 21/22] fix: end the line of dots in snippets of more than six
 lines

---
 koopa/src/front/span.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koopa/src/front/span.rs b/koopa/src/front/span.rs
index 09dd8cd..b902899 100644
--- a/koopa/src/front/span.rs
+++ b/koopa/src/front/span.rs
@@ -413,7 +413,7 @@ impl Span {
         eprint!("{} ", format!("{:w$}", line_num + i + 1, w = width).blue());
         eprintln!("{} {} {}", "|".blue(), "|".color(color), line);
       }
-      eprint!("{:.>w$} {} {}", "", "|".blue(), "|".color(color), w = width);
+      eprintln!("{:.>w$} {} {}", "", "|".blue(), "|".color(color), w = width);
       let line = get_line_str!(lines.nth(mid_lines - 3));
       eprint!("{} ", format!("{:w$}", self.end.line - 1, w = width).blue());
       eprintln!("{} {} {}", "|".blue(), "|".color(color), line);
-- 
2.43.0


From 1651481daf4f938899935d53661433974adfab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:06 +0000
Subject: [PATCH 22/22] fix: diagnostics about columns above 65535 panicked

The widths of format strings are limited to 16 bits.
---
 koopa/src/front/span.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/koopa/src/front/span.rs b/koopa/src/front/span.rs
index b902899..cf2cf30 100644
--- a/koopa/src/front/span.rs
+++ b/koopa/src/front/span.rs
@@ -376,8 +376,8 @@ impl Span {
     eprintln!("{:w$} {}", "", "|".blue(), w = width);
     eprint!("{} ", format!("{:w$}", line_num, w = width).blue());
     eprintln!("{} {}", "|".blue(), line);
-    eprint!("{:w$} {} {:l$}", "", "|".blue(), "", w = width, l = leading);
-    eprintln!("{}", format!("{:^>w$}", "", w = len).color(color));
+    eprint!("{:w$} {} {}", "", "|".blue(), " ".repeat(leading), w = width);
+    eprintln!("{}", "^".repeat(len).color(color));
   }
 
   /// Prints the multi-line information.
@@ -398,7 +398,7 @@ impl Span {
     eprint!("{} ", format!("{:w$}", line_num, w = width).blue());
     eprintln!("{}   {}", "|".blue(), line);
     eprint!("{:w$} {}  ", "", "|".blue(), w = width);
-    eprintln!("{}", format!("{:_>w$}^", "", w = start).color(color));
+    eprintln!("{}", format!("{}^", "_".repeat(start)).color(color));
     // print the middle lines to stderr
     let mid_lines = (self.end.line - self.start.line) as usize - 1;
     if mid_lines <= 4 {
@@ -424,7 +424,7 @@ impl Span {
     eprint!("{} ", format!("{:w$}", line_num, w = width).blue());
     eprintln!("{} {} {}", "|".blue(), "|".color(color), line);
     eprint!("{:w$} {} {}", "", "|".blue(), "|".color(color), w = width);
-    eprintln!("{}", format!("{:_>w$}^", "", w = end).color(color));
+    eprintln!("{}", format!("{}^", "_".repeat(end)).color(color));
   }
 }
 
-- 
2.43.0

