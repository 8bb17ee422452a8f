From caa621d294e2dcea848a2d65c75ef23d66e4b8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 01/21] fix: keep the recorded users of a value across
 update_value

A closure that overwrites the whole ValueData (for example with a clone,
whose user set is empty) used to drop the def-use chain of the value.
---
 koopa/src/ir/dfg.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/koopa/src/ir/dfg.rs b/koopa/src/ir/dfg.rs
index ef00906..157a912 100644
--- a/koopa/src/ir/dfg.rs
+++ b/koopa/src/ir/dfg.rs
@@ -131,7 +131,10 @@ impl DataFlowGraph {
     for bb in data.kind().bb_uses() {
       self.bb_mut(bb).used_by.remove(&value);
     }
+    // the users of `value` must survive even if `f` overwrites the whole data
+    let used_by = data.used_by.clone();
     f(&mut data);
+    data.used_by = used_by;
     for v in data.kind().value_uses() {
       data_mut!(self, v).used_by.insert(value);
     }
-- 
2.43.0


From 78ca1d980ef1a58943829d629af6f2d07a4ab910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 02/21] fix: forget the parents of instructions dropped by
 clearing or removing layout lists

---
 koopa/src/ir/layout.rs | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/koopa/src/ir/layout.rs b/koopa/src/ir/layout.rs
index badf26c..821579f 100644
--- a/koopa/src/ir/layout.rs
+++ b/koopa/src/ir/layout.rs
@@ -82,6 +82,24 @@ pub type BasicBlockList = KeyNodeList<BasicBlock, BasicBlockNode, BasicBlockMap>
 
 type InstBBCell = Weak<RefCell<HashMap<Value, BasicBlock>>>;
 
+/// Removes the parent records of the given instructions, which are no longer
+/// in the given basic block. Instructions that have been moved to other
+/// basic blocks are not affected.
+fn forget_parents<'a>(
+  inst_bb: &InstBBCell,
+  bb: BasicBlock,
+  insts: impl IntoIterator<Item = &'a Value>,
+) {
+  if let Some(inst_bb) = inst_bb.upgrade() {
+    let mut inst_bb = inst_bb.borrow_mut();
+    for inst in insts {
+      if inst_bb.get(inst) == Some(&bb) {
+        inst_bb.remove(inst);
+      }
+    }
+  }
+}
+
 /// The underlying hash map of the [`BasicBlockList`].
 pub struct BasicBlockMap {
   inst_bb: InstBBCell,
@@ -103,6 +121,9 @@ impl Map<BasicBlock, BasicBlockNode> for BasicBlockMap {
   }
 
   fn clear(&mut self) {
+    for (bb, node) in &self.map {
+      forget_parents(&self.inst_bb, *bb, node.insts.keys());
+    }
     self.map.clear()
   }
 
@@ -140,7 +161,11 @@ impl Map<BasicBlock, BasicBlockNode> for BasicBlockMap {
     BasicBlock: Borrow<Q>,
     Q: ?Sized + Hash + Eq,
   {
-    self.map.remove_entry(k)
+    let kv = self.map.remove_entry(k);
+    if let Some((bb, node)) = &kv {
+      forget_parents(&self.inst_bb, *bb, node.insts.keys());
+    }
+    kv
   }
 }
 
@@ -222,6 +247,7 @@ impl Map<Value, InstNode> for InstMap {
   }
 
   fn clear(&mut self) {
+    forget_parents(&self.inst_bb, self.bb, self.map.keys());
     self.map.clear()
   }
 
@@ -266,14 +292,8 @@ impl Map<Value, InstNode> for InstMap {
     Q: ?Sized + Hash + Eq,
   {
     let kv = self.map.remove_entry(k);
-    if kv.is_some() {
-      self
-        .inst_bb
-        .upgrade()
-        .unwrap()
-        .as_ref()
-        .borrow_mut()
-        .remove(k);
+    if let Some((inst, _)) = &kv {
+      forget_parents(&self.inst_bb, self.bb, [inst]);
     }
     kv
   }
-- 
2.43.0


From deb8eef60d854483a98a427209f4ab3f9d8513a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 03/21] fix: return None when removing a function that does not
 exist

---
 koopa/src/ir/entities.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/koopa/src/ir/entities.rs b/koopa/src/ir/entities.rs
index b879e47..0193901 100644
--- a/koopa/src/ir/entities.rs
+++ b/koopa/src/ir/entities.rs
@@ -180,11 +180,12 @@ impl Program {
   ///
   /// Returns the function data if the function was previously in the program.
   pub fn remove_func(&mut self, func: Function) -> Option<FunctionData> {
+    let data = self.funcs.remove(&func)?;
     self.func_tys.borrow_mut().remove(&func);
     self
       .func_layout
       .remove(self.func_layout.iter().position(|f| *f == func).unwrap());
-    self.funcs.remove(&func)
+    Some(data)
   }
 
   /// Returns a reference to the function map.
-- 
2.43.0


From f6f7fa047494d9a70f8a0d79d31865dbfe9443ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 04/21] fix: keep the users of global values exact when
 functions are removed or re-added

---
 koopa/src/ir/entities.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/koopa/src/ir/entities.rs b/koopa/src/ir/entities.rs
index 0193901..f4f019f 100644
--- a/koopa/src/ir/entities.rs
+++ b/koopa/src/ir/entities.rs
@@ -129,6 +129,16 @@ impl Program {
   #[deprecated(since = "0.0.10", note = "call `new_func_def` instead")]
   pub fn new_func(&mut self, mut data: FunctionData) -> Function {
     let func = Function(next_func_id());
+    // the function may have been removed from a program before
+    let mut globals = self.values.borrow_mut();
+    for (value, value_data) in data.dfg.values() {
+      for v in value_data.kind().value_uses() {
+        if let Some(global) = globals.get_mut(&v) {
+          global.used_by.insert(*value);
+        }
+      }
+    }
+    drop(globals);
     data.dfg.globals = Rc::downgrade(&self.values);
     data.dfg.func_tys = Rc::downgrade(&self.func_tys);
     self.func_tys.borrow_mut().insert(func, data.ty.clone());
@@ -185,6 +195,16 @@ impl Program {
     self
       .func_layout
       .remove(self.func_layout.iter().position(|f| *f == func).unwrap());
+    // the removed function no longer uses any global values
+    let mut globals = self.values.borrow_mut();
+    for (value, value_data) in data.dfg.values() {
+      for v in value_data.kind().value_uses() {
+        if let Some(global) = globals.get_mut(&v) {
+          global.used_by.remove(value);
+        }
+      }
+    }
+    drop(globals);
     Some(data)
   }
 
-- 
2.43.0


From 5efb88fc2ea427bb1c13d1a97d42f0632bf9c668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 05/21] fix: never give an unnamed entity a name that is
 already taken

---
 koopa/src/back/generator.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index aa0060b..adea83c 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -136,18 +136,22 @@ impl NameManager {
   /// and stores it to the given name set.
   fn next_name<F>(&mut self, name: &Option<String>, name_set: F) -> Rc<String>
   where
-    F: for<'a> FnOnce(&'a mut Self) -> &'a mut HashSet<StringRc>,
+    F: for<'a> Fn(&'a mut Self) -> &'a mut HashSet<StringRc>,
   {
     // check if there is a name
     if let Some(name) = name {
       self.next_name_str(name, name_set)
     } else {
-      // generate a temporary name
-      let name = self.prefix.temp_name(self.next_id);
-      self.next_id += 1;
-      let names = name_set(self);
-      names.insert(name.clone().into());
-      names.get(&name).unwrap().to_rc()
+      // generate a temporary name that has not been taken
+      loop {
+        let name = self.prefix.temp_name(self.next_id);
+        self.next_id += 1;
+        let names = name_set(self);
+        if !names.contains(&name) {
+          names.insert(name.clone().into());
+          return names.get(&name).unwrap().to_rc();
+        }
+      }
     }
   }
 
-- 
2.43.0


From a9bb1d32de8f1f3df4d15d515c9d6c9dcaed718d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 06/21] fix: name all functions before printing function bodies

---
 koopa/src/back/koopa.rs | 4 ++++
 koopa/src/back/llvm.rs  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/koopa/src/back/koopa.rs b/koopa/src/back/koopa.rs
index 38c8afe..1166b19 100644
--- a/koopa/src/back/koopa.rs
+++ b/koopa/src/back/koopa.rs
@@ -57,6 +57,10 @@ impl<W: Write> VisitorImpl<'_, W> {
     if !self.program.inst_layout().is_empty() {
       writeln!(self.w)?;
     }
+    // name all functions first, they can be called before their definitions
+    for func in self.program.func_layout() {
+      self.nm.func_name(self.program.func(*func));
+    }
     for (i, func) in self.program.func_layout().iter().enumerate() {
       if i != 0 {
         writeln!(self.w)?;
diff --git a/koopa/src/back/llvm.rs b/koopa/src/back/llvm.rs
index 2fec584..d353833 100644
--- a/koopa/src/back/llvm.rs
+++ b/koopa/src/back/llvm.rs
@@ -79,6 +79,10 @@ impl<W: Write> VisitorImpl<'_, W> {
       writeln!(self.w)?;
     }
     // functions
+    // name all functions first, they can be called before their definitions
+    for func in self.program.func_layout() {
+      self.nm.func_name(self.program.func(*func));
+    }
     for (i, func) in self.program.func_layout().iter().enumerate() {
       if i != 0 {
         writeln!(self.w)?;
-- 
2.43.0


From 4d65d87f96865b214267f4b0115539d2ba12ed99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 07/21] fix: do not reuse the names of a previously generated
 program

---
 koopa/src/back/generator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index adea83c..ea12f04 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -320,6 +320,8 @@ impl<W: Write, V: Visitor<W>> Generator<W, V> {
 
   /// Generates on the given Koopa IR program.
   pub fn generate_on(&mut self, program: &Program) -> Result<V::Output> {
+    // names are cached by address, so they are only valid for one run
+    self.name_man = NameManager::new();
     self
       .visitor
       .visit(&mut self.writer, &mut self.name_man, program)
-- 
2.43.0


From 5abc76116280f614f8cc6f2707937b495c7da859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 08/21] fix: always write the element types of LLVM array
 constants

---
 koopa/src/back/llvm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koopa/src/back/llvm.rs b/koopa/src/back/llvm.rs
index d353833..428a71c 100644
--- a/koopa/src/back/llvm.rs
+++ b/koopa/src/back/llvm.rs
@@ -446,7 +446,7 @@ impl<W: Write> VisitorImpl<'_, W> {
           if i != 0 {
             write!(self.w, ", ")?;
           }
-          self.visit_local_const(with_ty, value!(self, *elem))?;
+          self.visit_local_const(true, value!(self, *elem))?;
         }
         write!(self.w, "]")
       }
-- 
2.43.0


From e5a258c23fe2309443d017f4494361cd7b1ed243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 09/21] fix: truncate long names at a character boundary

---
 koopa/src/back/generator.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index ea12f04..6b31730 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -228,7 +228,11 @@ impl Prefix {
           format!("{}{}", temp, &name[1..])
         };
         if let Some(max_len) = max_len {
-          name.truncate(max_len.get());
+          let mut len = max_len.get().min(name.len());
+          while !name.is_char_boundary(len) {
+            len -= 1;
+          }
+          name.truncate(len);
         }
         name
       }
-- 
2.43.0


From ac0342bd347639c2082290b0d5a024ddcc8cf8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 10/21] fix: keep LLVM labels distinct from the names of local
 values

---
 koopa/src/back/generator.rs | 22 +++++++++++++++++++++-
 koopa/src/back/llvm.rs      |  2 ++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index 6b31730..de34d44 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -21,6 +21,7 @@ pub struct NameManager {
   next_id: usize,
   cur_scope: ScopeKind,
   prefix: Prefix,
+  unified: bool,
   global_names: HashSet<StringRc>,
   bb_names: HashSet<StringRc>,
   global_vars: HashMap<*const ValueData, Rc<String>>,
@@ -62,6 +63,11 @@ impl NameManager {
       "not in function scope"
     );
     self.cur_scope = ScopeKind::Global;
+    if self.unified {
+      for name in self.bbs.values() {
+        self.global_names.remove(name);
+      }
+    }
     self.bb_names.clear();
     self.bbs.clear();
     for name in self.values.values() {
@@ -74,6 +80,14 @@ impl NameManager {
     self.prefix = prefix;
   }
 
+  /// Sets whether basic blocks share the names with values, that is,
+  /// a basic block can not have the same name as a value.
+  ///
+  /// This should be set before any name is requested.
+  pub fn set_unified(&mut self, unified: bool) {
+    self.unified = unified;
+  }
+
   /// Returns the name of the given function.
   pub fn func_name(&mut self, func: &FunctionData) -> Rc<String> {
     let ptr: *const FunctionData = func;
@@ -92,7 +106,13 @@ impl NameManager {
     if let Some(name) = self.bbs.get(&ptr) {
       name.clone()
     } else {
-      let name = self.next_name(bb.name(), |s| &mut s.bb_names);
+      let name = self.next_name(bb.name(), |s| {
+        if s.unified {
+          &mut s.global_names
+        } else {
+          &mut s.bb_names
+        }
+      });
       self.bbs.insert(ptr, name);
       self.bbs[&ptr].clone()
     }
diff --git a/koopa/src/back/llvm.rs b/koopa/src/back/llvm.rs
index 428a71c..2ee853a 100644
--- a/koopa/src/back/llvm.rs
+++ b/koopa/src/back/llvm.rs
@@ -66,6 +66,8 @@ impl<W: Write> VisitorImpl<'_, W> {
 
   /// Visits the program.
   fn visit(&mut self) -> Result<()> {
+    // labels and local values are in the same namespace in LLVM IR
+    self.nm.set_unified(true);
     // global values
     self.nm.set_prefix(Prefix::Custom {
       named: "@".into(),
-- 
2.43.0


From 84df35965b7902b79f10169aa004656dde7bb763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 11/21] fix: skip comments without recursion so that long runs
 of them can not overflow the stack

---
 koopa/src/front/lexer.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/koopa/src/front/lexer.rs b/koopa/src/front/lexer.rs
index 19ec9e5..36daa3f 100644
--- a/koopa/src/front/lexer.rs
+++ b/koopa/src/front/lexer.rs
@@ -32,16 +32,19 @@ impl<T: Read> Lexer<T> {
 
   /// Returns the next token from file, or a lexer error.
   pub fn next_token(&mut self) -> Result {
-    // skip spaces
-    while self.last_char.is_some_and(|c| c.is_whitespace()) {
-      self.next_char()?;
+    // skip spaces and comments
+    loop {
+      while self.last_char.is_some_and(|c| c.is_whitespace()) {
+        self.next_char()?;
+      }
+      if self.last_char != Some('/') {
+        break;
+      }
+      self.handle_comment()?;
     }
     // check the last character
     if let Some(c) = self.last_char {
-      if c == '/' {
-        // skip comments
-        self.handle_comment()
-      } else if c == '@' || c == '%' {
+      if c == '@' || c == '%' {
         // symbols
         self.handle_symbol()
       } else if c.is_alphabetic() {
@@ -167,7 +170,7 @@ impl<T: Read> Lexer<T> {
   }
 
   /// Handles comments.
-  fn handle_comment(&mut self) -> Result {
+  fn handle_comment(&mut self) -> std::result::Result<(), Error> {
     let span = Span::new(self.pos);
     // eat '/'
     self.next_char()?;
@@ -179,15 +182,14 @@ impl<T: Read> Lexer<T> {
       while self.last_char.is_some_and(|c| c != '\r' && c != '\n') {
         self.next_char()?;
       }
-      // return the next token
-      self.next_token()
+      Ok(())
     } else {
       self.log_err_and_skip(span.into_updated(self.pos), "invalid comment")
     }
   }
 
   /// Handles block comments.
-  fn handle_block_comment(&mut self, span: Span) -> Result {
+  fn handle_block_comment(&mut self, span: Span) -> std::result::Result<(), Error> {
     // eat '*'
     self.next_char()?;
     // read until there is '*/' in stream
@@ -201,15 +203,14 @@ impl<T: Read> Lexer<T> {
       self.log_err_and_skip(span.into_updated(self.pos), "comment unclosed at EOF")
     } else {
       // eat '/'
-      self.next_char()?;
-      self.next_token()
+      self.next_char()
     }
   }
 
   /// Logs error message to stderr, and skip to the next space character.
   ///
   /// For error recovery support.
-  fn log_err_and_skip(&mut self, span: Span, message: &str) -> Result {
+  fn log_err_and_skip<U>(&mut self, span: Span, message: &str) -> std::result::Result<U, Error> {
     while self.last_char.is_some_and(|c| !c.is_whitespace()) {
       self.next_char()?;
     }
-- 
2.43.0


From 4d3a0bc7d5f3ba669331160023177d73d4b5795b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 12/21] fix: check the number of arguments against the number
 of parameters

---
 koopa/src/front/builder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index c2ca9d4..fd44d70 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -503,12 +503,12 @@ impl Builder {
     args_ty: &[Type],
   ) -> Result<Vec<Value>, Error> {
     // check length of argument list
-    if args.len() != args.len() {
+    if args.len() != args_ty.len() {
       return_error!(
         span,
         "expected {} {}, found {} {}",
-        args.len(),
-        "arguments".to_plural(args.len()),
+        args_ty.len(),
+        "arguments".to_plural(args_ty.len()),
         args.len(),
         "arguments".to_plural(args.len())
       );
-- 
2.43.0


From 2de66861e37065a60ec9c83ed2a88189807f902d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:04 +0000
Subject: [PATCH 13/21] fix: do not panic on branches to undefined basic blocks

---
 koopa/src/front/builder.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index fd44d70..501e56e 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -345,12 +345,10 @@ impl Builder {
     for block in bbs {
       let last_inst = block.stmts.last().unwrap();
       let mut add_pred = |bb_name| {
-        self
-          .local_bbs
-          .get_mut(bb_name)
-          .unwrap()
-          .preds
-          .push(block.name.clone());
+        // undefined targets have been reported by `get_block_list`
+        if let Some(info) = self.local_bbs.get_mut(bb_name) {
+          info.preds.push(block.name.clone());
+        }
       };
       match &last_inst.kind {
         AstKind::Branch(ast::Branch { tbb, fbb, .. }) => {
-- 
2.43.0


From 1d3c3bbb6c54b312573fa44d248ef52f84a846fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 14/21] fix: reject aggregates that do not fit the expected
 type instead of panicking

---
 koopa/src/front/builder.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index 501e56e..cdf9949 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -72,7 +72,7 @@ macro_rules! generate_init {
         let $elem_ty = match $ty.kind() {
           TypeKind::Array(base, len) => {
             if *len != agg.elems.len() {
-              log_error!(
+              return_error!(
                 $ast.span,
                 "expected array length {}, found length {}",
                 len,
@@ -81,7 +81,6 @@ macro_rules! generate_init {
             }
             base
           }
-          TypeKind::Pointer(base) => base,
           _ => return_error!($ast.span, "invalid aggregate type '{}'", $ty),
         };
         let elems = agg.elems.iter().map($agg_rec).collect::<Result<_, _>>()?;
-- 
2.43.0


From 71415c01967e6414b419010c27e25fcfb105787b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 15/21] fix: reject array types of zero or negative length
 instead of panicking

---
 koopa/src/front/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/koopa/src/front/parser.rs b/koopa/src/front/parser.rs
index cee270d..6320cb4 100644
--- a/koopa/src/front/parser.rs
+++ b/koopa/src/front/parser.rs
@@ -219,7 +219,12 @@ impl<T: Read> Parser<T> {
     // check & eat ','
     self.expect(TokenKind::Other(','))?;
     // get length
-    let len = read!(self, TokenKind::Int, "length")? as usize;
+    let len_span = self.span();
+    let len = read!(self, TokenKind::Int, "length")?;
+    if len <= 0 {
+      return_error!(len_span, "array length must be greater than zero, found '{}'", len);
+    }
+    let len = len as usize;
     // check & eat ']'
     span.update_span(self.expect(TokenKind::Other(']'))?);
     Ok(ast::ArrayType::new_boxed(span, base, len))
-- 
2.43.0


From b9347afe49ee404ff8db89ba66f46a3270dceb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 16/21] fix: print error positions in lines that are not ASCII
 without panicking

---
 koopa/src/front/span.rs | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/koopa/src/front/span.rs b/koopa/src/front/span.rs
index 58bb176..b9b938e 100644
--- a/koopa/src/front/span.rs
+++ b/koopa/src/front/span.rs
@@ -78,33 +78,42 @@ pub struct Span {
 #[cfg(not(feature = "no-front-logger"))]
 macro_rules! get_line_str {
   ($line:expr) => {
-    $line
-      .map_or("".into(), |r| r.unwrap())
+    String::from_utf8_lossy(&line_bytes($line))
       .replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH))
   };
   ($line:expr, $col:expr) => {{
-    let line = $line.map_or("".into(), |r| r.unwrap());
+    let line = line_bytes($line);
     let col = $col as usize;
-    let tabs = (&line[..col]).matches('\t').count();
+    let tabs = line.iter().take(col).filter(|c| **c == b'\t').count();
     (
-      line.replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH)),
+      String::from_utf8_lossy(&line).replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH)),
       col + tabs * (Span::TAB_WIDTH - 1),
     )
   }};
   ($line:expr, $col1:expr, $col2:expr) => {{
-    let line = $line.map_or("".into(), |r| r.unwrap());
+    let line = line_bytes($line);
     let col1 = $col1 as usize;
     let col2 = $col2 as usize;
-    let tabs1 = (&line[..col1]).matches('\t').count();
-    let tabs2 = tabs1 + (&line[col1..col2]).matches('\t').count();
+    let tabs1 = line.iter().take(col1).filter(|c| **c == b'\t').count();
+    let tabs2 = line.iter().take(col2).filter(|c| **c == b'\t').count();
     (
-      line.replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH)),
+      String::from_utf8_lossy(&line).replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH)),
       col1 + tabs1 * (Span::TAB_WIDTH - 1),
       col2 + tabs2 * (Span::TAB_WIDTH - 1),
     )
   }};
 }
 
+/// Returns the bytes of the given line, columns are counted in bytes.
+#[cfg(not(feature = "no-front-logger"))]
+fn line_bytes(line: Option<IoResult<Vec<u8>>>) -> Vec<u8> {
+  let mut line = line.and_then(|r| r.ok()).unwrap_or_default();
+  if line.last() == Some(&b'\r') {
+    line.pop();
+  }
+  line
+}
+
 impl Span {
   /// The column width occupied by the tab character.
   #[cfg(not(feature = "no-front-logger"))]
@@ -327,9 +336,10 @@ impl Span {
     if self.start.col > 0
       && self.end.col > 0
       && let FileType::File(path) = file
+      && let Ok(file) = File::open(path)
     {
-      // open file and get lines
-      let mut lines = BufReader::new(File::open(path).unwrap()).lines();
+      // get lines
+      let mut lines = BufReader::new(file).split(b'\n');
       if self.start.line == self.end.line {
         self.print_single_line_info(&mut lines, color);
       } else {
@@ -345,7 +355,7 @@ impl Span {
   #[cfg(not(feature = "no-front-logger"))]
   fn print_single_line_info<T>(&self, lines: &mut T, color: Color)
   where
-    T: Iterator<Item = IoResult<String>>,
+    T: Iterator<Item = IoResult<Vec<u8>>>,
   {
     // get some parameters
     let line_num = self.start.line as usize;
@@ -367,7 +377,7 @@ impl Span {
   #[cfg(not(feature = "no-front-logger"))]
   fn print_multi_line_info<T>(&self, lines: &mut T, color: Color)
   where
-    T: Iterator<Item = IoResult<String>>,
+    T: Iterator<Item = IoResult<Vec<u8>>>,
   {
     // get some parameters
     let width = ((self.end.line + 1) as f32).log10().ceil() as usize;
-- 
2.43.0


From 913cedb1b604264c76a2f032fdd24a23d666f760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 17/21] fix: report parameters that have the name of a global
 symbol or of an argument

---
 koopa/src/front/builder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index cdf9949..1681ed9 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -188,6 +188,8 @@ impl Builder {
     for ((n, a), p) in ast.params.iter().zip(self.program.func(func).params()) {
       if args.insert(n.clone(), *p).is_some() {
         log_error!(a.span, "duplicate parameter name '{}'", n);
+      } else if self.global_vars.contains_key(n) {
+        log_error!(a.span, "symbol '{}' has already been defined", n);
       }
     }
     // add to global function map
@@ -297,6 +299,8 @@ impl Builder {
 
   /// Initializes local basic block map.
   fn init_local_bbs(&mut self, func: Function, args: HashMap<String, Value>, bbs: &[&ast::Block]) {
+    // add argument references local symbols
+    self.local_symbols.extend(args.keys().cloned());
     // create all basic blocks
     self.local_bbs.clear();
     for block in bbs {
@@ -334,8 +338,6 @@ impl Builder {
       // insert block info to local basic block map
       self.local_bbs.insert(block.name.clone(), info);
     }
-    // add argument references local symbols
-    self.local_symbols.extend(args.keys().cloned());
     // add argument references to the entry basic block
     let entry_bb_name = &bbs[0].name;
     let entry_info = &mut self.local_bbs.get_mut(entry_bb_name).unwrap();
-- 
2.43.0


From 484bfd36c76ffa973ae0f8c72de5dcace1e8c6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 18/21] fix: do not print unreadable names for repeated numeric
 names

---
 koopa/src/back/generator.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index de34d44..fc102d5 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -179,7 +179,7 @@ impl NameManager {
   /// and stores it to the given name set.
   fn next_name_str<F>(&mut self, name: &str, name_set: F) -> Rc<String>
   where
-    F: for<'a> FnOnce(&'a mut Self) -> &'a mut HashSet<StringRc>,
+    F: for<'a> Fn(&'a mut Self) -> &'a mut HashSet<StringRc>,
   {
     let name = self.prefix.name(name);
     let names = name_set(self);
@@ -187,6 +187,9 @@ impl NameManager {
     if !names.contains(&name) {
       names.insert(name.clone().into());
       names.get(&name).unwrap().to_rc()
+    } else if is_numeric_name(&name) {
+      // a suffix would make the name unreadable, use a temporary name
+      self.next_name(&None, name_set)
     } else {
       // generate a new name
       for id in 0.. {
@@ -201,6 +204,13 @@ impl NameManager {
   }
 }
 
+/// Returns `true` if the given name is `%` followed by digits.
+fn is_numeric_name(name: &str) -> bool {
+  name
+    .strip_prefix('%')
+    .is_some_and(|n| n.bytes().all(|b| b.is_ascii_digit()))
+}
+
 /// Kind of scope.
 #[derive(Clone, Copy, Default)]
 enum ScopeKind {
-- 
2.43.0


From 245c6155df5971d54e3a39423575eb8118f2d5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 19/21] fix: print errors in very long lines without panicking

---
 koopa/src/front/span.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/koopa/src/front/span.rs b/koopa/src/front/span.rs
index b9b938e..9800ed6 100644
--- a/koopa/src/front/span.rs
+++ b/koopa/src/front/span.rs
@@ -367,8 +367,8 @@ impl Span {
     eprintln!("{:w$} {}", "", "|".blue(), w = width);
     eprint!("{} ", format!("{:w$}", line_num, w = width).blue());
     eprintln!("{} {}", "|".blue(), line);
-    eprint!("{:w$} {} {:l$}", "", "|".blue(), "", w = width, l = leading);
-    eprintln!("{}", format!("{:^>w$}", "", w = len).color(color));
+    eprint!("{:w$} {} {}", "", "|".blue(), " ".repeat(leading), w = width);
+    eprintln!("{}", "^".repeat(len).color(color));
   }
 
   /// Prints the multi-line information.
@@ -389,7 +389,7 @@ impl Span {
     eprint!("{} ", format!("{:w$}", line_num, w = width).blue());
     eprintln!("{}   {}", "|".blue(), line);
     eprint!("{:w$} {}  ", "", "|".blue(), w = width);
-    eprintln!("{}", format!("{:_>w$}^", "", w = start).color(color));
+    eprintln!("{}", format!("{}^", "_".repeat(start)).color(color));
     // print the middle lines to stderr
     let mid_lines = (self.end.line - self.start.line) as usize - 1;
     if mid_lines <= 4 {
@@ -415,7 +415,7 @@ impl Span {
     eprint!("{} ", format!("{:w$}", line_num, w = width).blue());
     eprintln!("{} {} {}", "|".blue(), "|".color(color), line);
     eprint!("{:w$} {} {}", "", "|".blue(), "|".color(color), w = width);
-    eprintln!("{}", format!("{:_>w$}^", "", w = end).color(color));
+    eprintln!("{}", format!("{}^", "_".repeat(end)).color(color));
   }
 }
 
-- 
2.43.0


From 7433c6db80026c68f643fcc0c58eb2ac6c464b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 20/21] fix: let a raw program builder build more than one
 program

---
 libkoopa/src/raw/builder.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/libkoopa/src/raw/builder.rs b/libkoopa/src/raw/builder.rs
index e93dfdf..984b2d3 100644
--- a/libkoopa/src/raw/builder.rs
+++ b/libkoopa/src/raw/builder.rs
@@ -8,6 +8,7 @@ use std::cell::UnsafeCell;
 use std::collections::HashMap;
 use std::ffi::CString;
 use std::marker::PhantomData;
+use std::mem::take;
 use std::os::raw::{c_char, c_void};
 use std::ptr::null;
 
@@ -20,8 +21,16 @@ pub struct RawProgramBuilder {
   funcs: HashMap<Function, Box<RawFunctionData>>,
   bbs: HashMap<BasicBlock, Box<RawBasicBlockData>>,
   values: HashMap<Value, Box<UnsafeCell<RawValueData>>>,
+  built: Vec<RawObjects>,
 }
 
+/// Raw objects of a previously built raw program.
+type RawObjects = (
+  HashMap<Function, Box<RawFunctionData>>,
+  HashMap<BasicBlock, Box<RawBasicBlockData>>,
+  HashMap<Value, Box<UnsafeCell<RawValueData>>>,
+);
+
 impl RawProgramBuilder {
   /// Creates a new raw builder.
   pub fn new() -> Self {
@@ -30,6 +39,13 @@ impl RawProgramBuilder {
 
   /// Builds on the given Koopa IR program.
   pub fn build_on(&mut self, program: &Program) -> RawProgram<'_> {
+    // raw programs built before are still valid, but must not be shared
+    let built = (
+      take(&mut self.funcs),
+      take(&mut self.bbs),
+      take(&mut self.values),
+    );
+    self.built.push(built);
     let mut info = ProgramInfo::new(program);
     let raw = RawProgram {
       values: iter_into_raw(program.inst_layout().iter(), self, &mut info),
-- 
2.43.0


From dbd04d53550a769f97f473c758135506083f8514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:25 +0000
Subject: [PATCH 21/21] fix: skip users that are not part of the program when
 building a raw program

---
 libkoopa/src/raw/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libkoopa/src/raw/builder.rs b/libkoopa/src/raw/builder.rs
index 984b2d3..580bca3 100644
--- a/libkoopa/src/raw/builder.rs
+++ b/libkoopa/src/raw/builder.rs
@@ -59,7 +59,8 @@ impl RawProgramBuilder {
       .map(|value| {
         let v: Vec<_> = info.value_used_by[value]
           .iter()
-          .map(|v| self.values[v].get() as *const ())
+          .filter_map(|v| self.values.get(v))
+          .map(|v| v.get() as *const ())
           .collect();
         let slice = RawSlice {
           buffer: v.as_ptr() as *const c_void,
-- 
2.43.0

