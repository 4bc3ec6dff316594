From 85bdfb48d3a4682c6774c328eeca6c3ca64dd4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 01/73] fix: resolve an already captured upvalue to its own
 index in nested functions

---
 cordy-sys/src/compiler/parser/semantic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index b5ef389..08fcd48 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1367,9 +1367,9 @@ impl<'a> Parser<'a> {
 
             // Only add it if we haven't found an upvalue with the same index and `!is_local` (which is unique).
             let mut found: bool = false;
-            for upvalue in &self.locals[depth as usize].upvalues {
+            for (i, upvalue) in self.locals[depth as usize].upvalues.iter().enumerate() {
                 if upvalue.index == index && !upvalue.is_local {
-                    index = upvalue.index; // Update the index
+                    index = i as u32; // Update the index
                     found = true; // And mark that we found an existing one
                     break
                 }
-- 
2.43.0


From 50871759bdcdf6ea5571db5b33c1d12ad8612e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 02/73] fix: pop the value of an expression statement before
 entering a do-while loop

---
 cordy-sys/src/compiler/parser/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 11317af..519f9e9 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -822,6 +822,7 @@ impl Parser<'_> {
 
     /// Parses a `do { }`, which is a syntax for a scoped block, and optionally a `while` at the end
     fn parse_do_while_statement(&mut self) {
+        self.push_delayed_pop();
         self.advance(); // Consume `do`
 
         let jump = self.begin_loop();
-- 
2.43.0


From 628cdd2056cd2ec76a6a65e93c4f37cfa226d848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 03/73] fix: compose in field->name .= function assignments
 instead of comparing

---
 cordy-sys/src/compiler/parser/codegen.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/codegen.rs b/cordy-sys/src/compiler/parser/codegen.rs
index 5bb5dd4..f5d4c85 100644
--- a/cordy-sys/src/compiler/parser/codegen.rs
+++ b/cordy-sys/src/compiler/parser/codegen.rs
@@ -249,7 +249,13 @@ impl<'a> Parser<'a> {
                 self.emit_expr(*lhs);
                 self.push_at(GetFieldPeek(field_index), loc);
                 self.emit_expr(*rhs);
-                self.push_at(Binary(op), loc);
+                match op {
+                    BinaryOp::NotEqual => { // Marker to indicate this is a `lhs->field .= rhs`
+                        self.push(Swap);
+                        self.push_at(Call(1, false), loc);
+                    },
+                    op => self.push_at(Binary(op), loc),
+                }
                 self.push_at(SetField(field_index), loc);
             },
             Expr(loc, ExprType::Assignment(lvalue, rhs)) => {
-- 
2.43.0


From d9723e9cbf5ed995a1ad6ab3a0700b52cbd6a744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 04/73] fix: do not reorder exit before the expressions that
 precede it when optimizing

---
 cordy-sys/src/compiler/parser/expr/optimizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/expr/optimizer.rs b/cordy-sys/src/compiler/parser/expr/optimizer.rs
index 448eed5..7d1440e 100644
--- a/cordy-sys/src/compiler/parser/expr/optimizer.rs
+++ b/cordy-sys/src/compiler/parser/expr/optimizer.rs
@@ -170,7 +170,7 @@ impl Expr {
 
     fn purity(&self) -> Purity {
         match &self.1 {
-            ExprType::Nil | ExprType::Exit | ExprType::Bool(_) | ExprType::Int(_) | ExprType::Str(_) | ExprType::NativeFunction(_) | ExprType::Function { .. } => Purity::Strong,
+            ExprType::Nil | ExprType::Bool(_) | ExprType::Int(_) | ExprType::Str(_) | ExprType::NativeFunction(_) | ExprType::Function { .. } => Purity::Strong,
             ExprType::LValue(_) => Purity::Weak,
 
             ExprType::Unary(_, arg) => arg.purity(),
-- 
2.43.0


From 50bcb36c3a26bca1648a280c909a86aaa4012481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 05/73] fix: terminate block comments at the first */ after the
 opening, including /**/

---
 cordy-sys/src/compiler/scanner.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/cordy-sys/src/compiler/scanner.rs b/cordy-sys/src/compiler/scanner.rs
index adfac9a..c8a83e9 100644
--- a/cordy-sys/src/compiler/scanner.rs
+++ b/cordy-sys/src/compiler/scanner.rs
@@ -399,17 +399,12 @@ impl<'a> Scanner<'a> {
                            }
                            Some('*') => {
                                let start: usize = self.cursor;
+                               self.advance(); // Consume the opening `*`, which cannot also be part of the closing `*/`
                                loop {
                                    match self.advance() {
-                                       Some('*') => {
-                                           match self.advance() {
-                                               Some('/') => break,
-                                               Some(_) => {},
-                                               None => {
-                                                   self.push_err_at(start, 2, UnterminatedBlockComment);
-                                                   break
-                                               }
-                                           }
+                                       Some('*') => if self.peek() == Some('/') {
+                                           self.advance();
+                                           break
                                        },
                                        Some(_) => {},
                                        None => {
-- 
2.43.0


From fb4933f8efbad3aaea96dc7e8d2c9e5a9885d1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 06/73] fix: length of stepped ranges and reverse iteration of
 ranges and enumerations

---
 cordy-sys/src/vm/value/mod.rs   | 15 +++++++++++----
 cordy-sys/src/vm/value/range.rs | 10 +++++-----
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index 9cbb40f..7fd4b92 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -949,7 +949,14 @@ impl Iterator for IterableRev {
     type Item = ValuePtr;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match &mut self.0 {
+        self.0.next_reversed()
+    }
+}
+
+impl Iterable {
+    /// Returns the next element of an iterable that has been prepared for reverse iteration, via `Iterable.reverse()`
+    fn next_reversed(&mut self) -> Option<ValuePtr> {
+        match self {
             Iterable::Str(it) => it.next_back().map(|u| u.to_value()),
             Iterable::Unit(it) => it.take(),
             Iterable::Collection(index, it) => {
@@ -968,9 +975,9 @@ impl Iterator for IterableRev {
             }
             Iterable::Range(it, range) => range.next(it),
             Iterable::Enumerate(index, it) => {
-                let ret = (*it).next().map(|u| (u, index.to_value()).to_value());
-                *index += 1;
-                ret
+                let value = it.next_reversed()?;
+                *index = index.saturating_sub(1);
+                Some((index.to_value(), value).to_value())
             },
         }
     }
diff --git a/cordy-sys/src/vm/value/range.rs b/cordy-sys/src/vm/value/range.rs
index 56a6d29..ba3e9a7 100644
--- a/cordy-sys/src/vm/value/range.rs
+++ b/cordy-sys/src/vm/value/range.rs
@@ -63,13 +63,13 @@ impl Range {
         match self.step.cmp(&0) {
             Ordering::Equal => self,
             Ordering::Greater => Range::new(
-                self.start + self.len() as i64 * self.step,
-                self.start + 1,
+                self.start + (self.len() as i64 - 1) * self.step,
+                self.start - 1,
                 -self.step
             ),
             Ordering::Less => Range::new(
-                self.start + self.len() as i64 * self.step,
-                self.start - 1,
+                self.start + (self.len() as i64 - 1) * self.step,
+                self.start + 1,
                 -self.step
             )
         }
@@ -112,7 +112,7 @@ impl Range {
         // Since this type ensures that the range is non-empty, we can do simple checked arithmetic
         match self.step {
             0 => 0,
-            _ => (self.start.abs_diff(self.stop) / self.step.unsigned_abs()) as usize
+            _ => num_integer::div_ceil(self.start.abs_diff(self.stop), self.step.unsigned_abs()) as usize
         }
     }
 
-- 
2.43.0


From 68d258dc87d95ec6eb18ab8e5fd6e19fb324bbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 07/73] fix: bind late references to methods only within the
 module that declares them

---
 cordy-sys/src/compiler/parser/semantic.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 08fcd48..a7d0bba 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -246,6 +246,8 @@ pub struct LateBinding {
     fallback: Option<u32>,
     /// If true, an error should be raised. Represents the state of the error recovery mode when hit
     error: bool,
+    /// If true, the reference was made within the module which is currently being parsed, and so it may bind to a method of that module.
+    in_module: bool,
 }
 
 impl LateBinding {
@@ -261,11 +263,12 @@ impl LateBinding {
         let index = parser.late_binding_next_index;
         let loc = parser.prev_location();
         let error = !parser.error_recovery;
+        let in_module = parser.module_depth > 0;
         let this = parser.resolve_reference(Reference::LateThis);
 
         parser.late_binding_next_index += 1;
 
-        Box::new(LateBinding { index, name, this, ty: ReferenceType::Invalid, loc, fallback, error })
+        Box::new(LateBinding { index, name, this, ty: ReferenceType::Invalid, loc, fallback, error, in_module })
     }
 
     pub fn update(&mut self, ty: ReferenceType) {
@@ -925,6 +928,11 @@ impl<'a> Parser<'a> {
 
         self.push(Constant(id));
 
+        // Any references which are still late bound can no longer bind to a method of this module
+        for binding in &mut self.late_bindings {
+            binding.in_module = false;
+        }
+
         // Decrement module depth
         self.module_depth -= 1;
     }
@@ -1027,7 +1035,8 @@ impl<'a> Parser<'a> {
 
             // If the binding matches, it will be declared here
             // The first declaration is always the matching one, as the precedence for methods/fields -> globals is always maintained
-            if binding.name == name {
+            // Methods are only visible to references made from within the module that declares them
+            if binding.name == name && (binding.in_module || matches!(result, LateBound::Local(_))) {
                 let binding = self.late_bindings.swap_remove(i); // Remove this binding - this drops the borrow on self.bindings
 
                 // Update the binding if possible
-- 
2.43.0


From 5fe38eb876c69e554bd1ef7615251281afb26d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 08/73] fix: resolve late bound globals and reject methods as
 targets in pattern assignments

---
 cordy-sys/src/compiler/parser/semantic.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index a7d0bba..42803f6 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1080,7 +1080,7 @@ impl<'a> Parser<'a> {
                             self.insert(at, binding.loc, Constant(*function_id));
                         }
                     },
-                    (ReferenceType::Store(_), LateBound::Method { .. }) => self.error_at(binding.loc, AssignmentTargetInvalid),
+                    (ReferenceType::Store(_) | ReferenceType::StorePattern(_), LateBound::Method { .. }) => self.error_at(binding.loc, AssignmentTargetInvalid),
                     (_, _) => panic!("Invalid reference type set!"),
                 }
                 continue; // Skip the below i += 1, since this binding got swap-removed
@@ -1097,7 +1097,16 @@ impl<'a> Parser<'a> {
                 match binding.ty {
                     ReferenceType::Load(at) => Parser::do_insert(at, binding.loc, PushGlobal(fallback), &mut self.functions),
                     ReferenceType::Store(at) => Parser::do_insert(at, binding.loc, StoreGlobal(fallback, false), &mut self.functions),
-                    _ => panic!()
+                    ReferenceType::StorePattern(pattern_index) => {
+                        self.patterns[pattern_index].visit(&mut |op| {
+                            if let ParserStoreOp::LateBoundGlobal(index) = op {
+                                if *index == binding.index {
+                                    *op = ParserStoreOp::Bound(StoreOp::Global(fallback))
+                                }
+                            }
+                        });
+                    },
+                    ReferenceType::Invalid => panic!("Invalid reference type set!")
                 }
             } else if binding.error {
                 self.errors.insert(ParserError::new(UndeclaredIdentifier(binding.name), binding.loc));
-- 
2.43.0


From 1d916d0c93f7d49222c6c36481ae9069d29b4aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 09/73] fix: allow self fields as targets in pattern
 assignments

---
 cordy-sys/src/compiler/parser/semantic.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 42803f6..eac94cf 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -657,6 +657,12 @@ impl LValueReference {
                 ParserStoreOp::LateBoundGlobal(index)
             }
 
+            // Similar to an array or field reference, `self` is pushed prior to executing the pattern
+            lvalue @ LValueReference::ThisField { field_index, .. } => {
+                parser.push_store_lvalue_prefix(&lvalue, parser.prev_location());
+                ParserStoreOp::Bound(StoreOp::Field(field_index))
+            }
+
             LValueReference::Invalid => ParserStoreOp::Invalid, // Error has already been raised
             _ => panic!("Invalid store from within pattern: {:?}", self),
 
-- 
2.43.0


From e62aa9d2b6dfac2eac9cfa3aa99f94b638bc27ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 10/73] fix: accept nested variadic names and reject multiple
 variadic terms in pattern assignments

---
 cordy-sys/src/compiler/parser/semantic.rs | 24 +++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index eac94cf..773a016 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -383,10 +383,19 @@ impl LValue {
                 .map(|lvalue| LValue::Terms(vec![lvalue])),
 
             // Otherwise, all comma expressions produce the same level of indirection
-            ExprType::Comma { args, .. } => args.into_iter()
-                .map(|Expr(_, expr)| LValue::from(expr, false))
-                .collect::<Result<Vec<LValue>, ParserErrorType>>()
-                .map(LValue::Terms),
+            ExprType::Comma { args, .. } => {
+                let terms = args.into_iter()
+                    .map(|Expr(_, expr)| LValue::from(expr, false))
+                    .collect::<Result<Vec<LValue>, ParserErrorType>>()?;
+
+                if let [LValue::VarNamed(_)] = terms[..] {
+                    return Err(AssignmentTargetInvalid); // A lone `*x` is not a valid pattern
+                }
+                match terms.iter().filter(|term| term.is_variadic()).count() {
+                    0 | 1 => Ok(LValue::Terms(terms)),
+                    _ => Err(MultipleVariadicTermsInPattern),
+                }
+            },
 
             // These are produced by the parser in some situations, so we have to handle them,
             // as at the time the parse was ambiguous
@@ -394,6 +403,13 @@ impl LValue {
                 if matches!(*f, Expr(_, ExprType::NativeFunction(core::NativeFunction::OperatorMul)))
                 && args.len() == 1 && matches!(args[0], Expr(_, ExprType::Empty))
                 => Ok(LValue::VarEmpty),
+            ExprType::Call { f, mut args, unroll: false }
+                if matches!(*f, Expr(_, ExprType::NativeFunction(core::NativeFunction::OperatorMul)))
+                && args.len() == 1 && matches!(args[0], Expr(_, ExprType::LValue(_)))
+                => match args.pop() {
+                    Some(Expr(_, ExprType::LValue(lvalue))) => LValue::from(ExprType::VarLValue(lvalue), false),
+                    _ => Err(AssignmentTargetInvalid)
+                },
 
             ExprType::Index(array, index) => Ok(LValue::Named(LValueReference::Array(array, index))),
             ExprType::GetField(expr, field_index) => Ok(LValue::Named(LValueReference::Field(expr, field_index))),
-- 
2.43.0


From f65dc8b86652e7a7a906a16490c5670e2daf3399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 11/73] fix: lift captured for loop variables on continue

---
 cordy-sys/src/compiler/parser/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 519f9e9..016113a 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -950,8 +950,12 @@ impl Parser<'_> {
         match self.current_locals_mut().top_loop() {
             Some(loop_stmt) => {
                 let jump = loop_stmt.start_id;
-                let depth: u32 = loop_stmt.inner_scope();
-                self.pop_locals(Some(depth), false, true, true);
+                let inner: u32 = loop_stmt.inner_scope();
+                let enclosing: u32 = loop_stmt.enclosing_scope();
+
+                // The variables of a `for` loop are kept on the stack, but still need to be lifted, as each iteration has unique variables
+                self.pop_locals(Some(enclosing), false, false, true);
+                self.pop_locals(Some(inner), false, true, false);
                 self.join_reverse(jump, BranchType::Jump);
             },
             None => self.semantic_error(ContinueOutsideOfLoop),
-- 
2.43.0


From f0dee8621e476009eac72a6790c712ab1dcb9635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 12/73] fix: lift open upvalues on return, as locals may be
 captured later in a loop

---
 cordy-sys/src/vm/mod.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index f421126..ea6f484 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -307,6 +307,13 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
 
                     let frame: CallFrame = self.call_stack.pop().unwrap(); // Pop the call frame
 
+                    // A `return` in a loop may be compiled before a local is known to be captured, so any upvalues which are still open have to be lifted here
+                    if !self.open_upvalues.is_empty() {
+                        for index in frame.frame_pointer..self.stack.len() {
+                            self.lift_upvalue(index);
+                        }
+                    }
+
                     self.stack.swap_remove(frame.frame_pointer - 1); // This removes the function, and drops it, and it gets automatically replaced with the return value
                     self.stack.truncate(frame.frame_pointer); // Drop all values above the frame pointer
                     self.ip = frame.return_ip; // And jump to the return address
@@ -421,15 +428,7 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
 
                 LiftUpValue(index) => {
                     let index = self.frame_pointer() + index as usize;
-                    if let Some(upvalue) = self.open_upvalues.remove(&index) {
-                        let value: ValuePtr = self.stack[index].clone();
-                        let unboxed: UpValue = (*upvalue).replace(UpValue::Open(0));
-                        let closed: UpValue = match unboxed {
-                            UpValue::Open(_) => UpValue::Closed(value),
-                            UpValue::Closed(_) => panic!("Tried to lift an already closed upvalue"),
-                        };
-                        (*upvalue).replace(closed);
-                    }
+                    self.lift_upvalue(index);
                 },
 
                 InitIterable => {
@@ -698,6 +697,20 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
     }
 
 
+    /// Lifts the open upvalue for the stack slot `index`, if there is one, to the heap.
+    fn lift_upvalue(&mut self, index: usize) {
+        if let Some(upvalue) = self.open_upvalues.remove(&index) {
+            let value: ValuePtr = self.stack[index].clone();
+            let unboxed: UpValue = (*upvalue).replace(UpValue::Open(0));
+            let closed: UpValue = match unboxed {
+                UpValue::Open(_) => UpValue::Closed(value),
+                UpValue::Closed(_) => panic!("Tried to lift an already closed upvalue"),
+            };
+            (*upvalue).replace(closed);
+        }
+    }
+
+
     // ===== Basic Ops ===== //
 
     /// Returns the current `frame_pointer`
-- 
2.43.0


From 4e0728c6e229ea838c2a1dcd56d91060e69841eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 13/73] fix: disallow continue in the else block of a for loop,
 which corrupted the stack

---
 cordy-sys/src/compiler/parser/mod.rs      | 5 +++--
 cordy-sys/src/compiler/parser/semantic.rs | 7 ++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 016113a..bc6756f 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -921,6 +921,7 @@ impl Parser<'_> {
 
         if let Some(KeywordElse) = self.peek() { // Parse `for {} else {}`
             self.advance();
+            self.current_locals_mut().top_loop().unwrap().disallow_continue(); // The iterable has been popped, so it is not possible to continue from here
             self.parse_block_statement();
             self.push_delayed_pop();
         }
@@ -948,7 +949,7 @@ impl Parser<'_> {
         self.push_delayed_pop();
         self.advance();
         match self.current_locals_mut().top_loop() {
-            Some(loop_stmt) => {
+            Some(loop_stmt) if loop_stmt.allow_continue() => {
                 let jump = loop_stmt.start_id;
                 let inner: u32 = loop_stmt.inner_scope();
                 let enclosing: u32 = loop_stmt.enclosing_scope();
@@ -958,7 +959,7 @@ impl Parser<'_> {
                 self.pop_locals(Some(inner), false, true, false);
                 self.join_reverse(jump, BranchType::Jump);
             },
-            None => self.semantic_error(ContinueOutsideOfLoop),
+            _ => self.semantic_error(ContinueOutsideOfLoop),
         }
     }
 
diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 773a016..6c562d4 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -34,15 +34,20 @@ pub struct Loop {
     /// The scope within the loop, containing per-loop-iteration variables.
     /// This is the scope that a `continue` statement needs to jump to, which is the minimal scope still inside the loop.
     inner_scope: u32,
+
+    /// If `continue` statements are allowed. This is false only within the `else` block of a `for` loop.
+    allow_continue: bool,
 }
 
 impl Loop {
     fn new(start_id: ReverseBlockId, enclosing_scope: u32, inner_scope: u32) -> Loop {
-        Loop { start_id, break_ids: Vec::new(), enclosing_scope, inner_scope }
+        Loop { start_id, break_ids: Vec::new(), enclosing_scope, inner_scope, allow_continue: true }
     }
 
     pub fn enclosing_scope(&self) -> u32 { self.enclosing_scope }
     pub fn inner_scope(&self) -> u32 { self.inner_scope }
+    pub fn allow_continue(&self) -> bool { self.allow_continue }
+    pub fn disallow_continue(&mut self) { self.allow_continue = false }
 }
 
 
-- 
2.43.0


From 72e67a8c8e4234b4a86eb2afefaabb7d0cf81c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 14/73] fix: resolve variables in default arguments from within
 the function they are evaluated in

---
 cordy-sys/src/compiler/parser/mod.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index bc6756f..a15e5bb 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -583,7 +583,7 @@ impl Parser<'_> {
                 },
                 Some(Equals) => {
                     self.advance(); // Consume `=`
-                    params.default_args.push(self.parse_expr()); // Parse an expression
+                    params.default_args.push(self.parse_default_argument());
                 },
                 _ => if !params.variadic && !params.default_args.is_empty() {
                     self.semantic_error(NonDefaultParameterAfterDefaultParameter);
@@ -598,6 +598,22 @@ impl Parser<'_> {
         params
     }
 
+    /// Parses the expression of a default argument. As this is emitted within the function being declared (and not the enclosing one),
+    /// any references to the locals of the enclosing function need to be resolved as upvalues.
+    fn parse_default_argument(&mut self) -> Expr {
+        self.locals.push(Locals::new(None));
+        self.function_depth += 1;
+        self.scope_depth += 1;
+
+        let expr = self.parse_expr(); // Parse an expression
+
+        self.locals.pop().unwrap();
+        self.function_depth -= 1;
+        self.scope_depth -= 1;
+
+        expr
+    }
+
     fn parse_function_body_and_emit(&mut self, params: ParserFunctionParameters) {
         let closed_locals = self.parse_function_body(params);
         self.emit_closure_and_closed_locals(closed_locals);
-- 
2.43.0


From 6c683847134d6720c8dafbde8f17c530e248da1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 15/73] fix: assignment to an array index evaluates to the
 assigned value

---
 cordy-sys/src/vm/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index ea6f484..63d1b9f 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -388,8 +388,9 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
                     trace::trace_interpreter!("vm::run StoreArray array={}, index={}, value={}", self.stack[self.stack.len() - 3].as_debug_str(), self.stack[self.stack.len() - 2].as_debug_str(), self.stack.last().unwrap().as_debug_str());
                     let a3: ValuePtr = self.pop();
                     let a2: ValuePtr = self.pop();
-                    let a1: &ValuePtr = self.peek(0); // Leave this on the stack when done
-                    core::set_index(a1, a2, a3)?;
+                    let a1: ValuePtr = self.pop();
+                    core::set_index(&a1, a2, a3.clone())?;
+                    self.push(a3); // As with other assignments, leave the value on the stack when done
                 },
 
                 InitGlobal => {
-- 
2.43.0


From f429d6ffe28810444bbb02f8e125e80fdfb4e37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 16/73] fix: count bound arguments when collecting variadic
 arguments of a partial function

---
 cordy-sys/src/vm/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index 63d1b9f..bcc18af 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -780,7 +780,7 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
                     // Exactly enough arguments to invoke the function
                     // We need to set up the stack correctly to call the function
                     let head: usize = func.jump_offset(total_nargs);
-                    let num_var_args: Option<u32> = func.num_var_args(nargs);
+                    let num_var_args: Option<u32> = func.num_var_args(total_nargs);
                     let (ptr, args) = partial.consume();
                     self.stack[i] = ptr; // Replace the `Nil` from earlier
                     insert(&mut self.stack, args, nargs);
-- 
2.43.0


From 73eda8b6bc70bc8f324cb222ae5204f5604f71a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 17/73] fix: partially evaluated native functions only require
 their remaining arguments when used as a key function

---
 cordy-sys/src/vm/value/func.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/value/func.rs b/cordy-sys/src/vm/value/func.rs
index 8242472..4fcaa90 100644
--- a/cordy-sys/src/vm/value/func.rs
+++ b/cordy-sys/src/vm/value/func.rs
@@ -305,7 +305,7 @@ impl PartialNativeFunction {
     }
 
     pub fn min_nargs(&self) -> u32 {
-        self.func.min_nargs()
+        self.partial.min_nargs()
     }
 }
 
-- 
2.43.0


From a296312a176303ca3a12e480b43d857ca5acefc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 18/73] fix: partial functions with different bound arguments
 are not equal

---
 cordy-sys/src/core/mod.rs      | 2 +-
 cordy-sys/src/vm/value/func.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index 1d554a5..e33c612 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -482,7 +482,7 @@ impl Argument {
 ///
 /// This *should be* optimize-able, given that we already perform a dispatch against the function once, when creating the partial function. So, we use `PartialArgument` to represent that state, post-dispatch.
 /// We can also create partial argument types that have an explicit number of partial arguments
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, Eq, PartialEq)]
 pub enum PartialArgument {
     Arg2Par1(ValuePtr),
     Arg3Par1(ValuePtr),
diff --git a/cordy-sys/src/vm/value/func.rs b/cordy-sys/src/vm/value/func.rs
index 4fcaa90..cc1c579 100644
--- a/cordy-sys/src/vm/value/func.rs
+++ b/cordy-sys/src/vm/value/func.rs
@@ -178,7 +178,7 @@ impl ValuePtr {
 impl Eq for PartialFunction {}
 impl PartialEq<Self> for PartialFunction {
     fn eq(&self, other: &Self) -> bool {
-        self.func == other.func
+        self.func == other.func && self.args == other.args
     }
 }
 
@@ -312,7 +312,7 @@ impl PartialNativeFunction {
 impl Eq for PartialNativeFunction {}
 impl PartialEq<Self> for PartialNativeFunction {
     fn eq(&self, other: &Self) -> bool {
-        self.func == other.func
+        self.func == other.func && self.partial == other.partial
     }
 }
 
-- 
2.43.0


From 1e959dc3e24a0a33730d5ba4ec77684693f55ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:11 +0000
Subject: [PATCH 19/73] fix: index and slice strings by characters, not bytes

---
 cordy-sys/src/vm/value/mod.rs   | 2 +-
 cordy-sys/src/vm/value/slice.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index 7fd4b92..8532bf7 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -1010,7 +1010,7 @@ impl<'a> Indexable<'a> {
 
     pub fn len(&self) -> usize {
         match self {
-            Indexable::Str(it) => it.len(),
+            Indexable::Str(it) => it.chars().count(),
             Indexable::List(it) => it.len(),
             Indexable::Vector(it) => it.len(),
         }
diff --git a/cordy-sys/src/vm/value/slice.rs b/cordy-sys/src/vm/value/slice.rs
index 0140be6..eab1268 100644
--- a/cordy-sys/src/vm/value/slice.rs
+++ b/cordy-sys/src/vm/value/slice.rs
@@ -101,7 +101,7 @@ impl Sliceable<'_> {
     /// Returns the length of the original value being sliced.
     pub fn len(&self) -> usize {
         match self {
-            Sliceable::Str(it, _) => it.len(),
+            Sliceable::Str(it, _) => it.chars().count(),
             Sliceable::List(it, _) => it.len(),
             Sliceable::Vector(it, _) => it.len(),
         }
-- 
2.43.0


From 6dbaeab6a6939c2306170b2682775105f40d8d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 20/73] fix: resolve parenthesised and vector operands of
 assert comparisons

---
 cordy-sys/src/compiler/parser/codegen.rs | 2 +-
 cordy-sys/src/compiler/parser/mod.rs     | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/codegen.rs b/cordy-sys/src/compiler/parser/codegen.rs
index f5d4c85..6ee3f22 100644
--- a/cordy-sys/src/compiler/parser/codegen.rs
+++ b/cordy-sys/src/compiler/parser/codegen.rs
@@ -61,7 +61,7 @@ impl<'a> Parser<'a> {
     ///
     /// This will, for many expression fragments, emit semantic errors and return `Expr::nil()`, as the fragments do not
     /// need to be visible to the optimizer in the event an error was raised.
-    fn process_expr(&mut self, expr: Expr) -> Expr {
+    pub fn process_expr(&mut self, expr: Expr) -> Expr {
         expr.walk(&mut Process(self))
     }
 
diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index a15e5bb..c0f4048 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -991,7 +991,8 @@ impl Parser<'_> {
         // If we parse an expression that has a top-level compare operation, we use AssertCompare, which performs the comparison (and thus can report both sides of the assert value)
         let branch_type = match self.parse_expr() {
             Expr(_, ExprType::Binary(op @ (BinaryOp::Equal | BinaryOp::NotEqual | BinaryOp::GreaterThan | BinaryOp::GreaterThanEqual | BinaryOp::LessThan | BinaryOp::LessThanEqual), lhs, rhs, swap)) => {
-                self.emit_binary_op_args(*lhs, *rhs, swap);
+                let (lhs, rhs) = (self.process_expr(*lhs), self.process_expr(*rhs));
+                self.emit_binary_op_args(lhs, rhs, swap);
                 BranchType::AssertCompare(CompareOp::from(op))
             }
             e => {
-- 
2.43.0


From 08b3f0faeda000132b0db2ca5f1d2b510716cb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:10 +0000
Subject: [PATCH 21/73] fix: assertion messages that are not strings

---
 cordy-sys/src/reporting.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index b4e73ce..8064081 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -291,12 +291,12 @@ impl AsError for RuntimeError {
                 let mut any = false;
                 if !reason.is_nil() {
                     error.push(' ');
-                    error.push_str(reason.as_str_slice());
+                    error.push_str(&reason.to_str());
                     any = true;
                 }
                 if !message.is_nil() {
                     error.push(if any { '\n' } else { ' '});
-                    error.push_str(message.as_str_slice())
+                    error.push_str(&message.to_str())
                 }
                 error
             },
-- 
2.43.0


From c58e3fcd5279dc4bc863bfa206110bb625ba42d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:15 +0000
Subject: [PATCH 22/73] fix: late bound references keep their position, when
 followed by a branch or another late bound reference

---
 cordy-sys/src/compiler/parser/core/graph.rs | 22 +++++++--------------
 cordy-sys/src/compiler/parser/core/mod.rs   |  2 ++
 cordy-sys/src/compiler/parser/semantic.rs   | 21 +++++++-------------
 3 files changed, 16 insertions(+), 29 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/core/graph.rs b/cordy-sys/src/compiler/parser/core/graph.rs
index 1e134bf..7b6f7d3 100644
--- a/cordy-sys/src/compiler/parser/core/graph.rs
+++ b/cordy-sys/src/compiler/parser/core/graph.rs
@@ -117,13 +117,13 @@ impl<'a> Parser<'a> {
         OpcodeId { function_id, code_id: CodeId { block_id, opcode_id } }
     }
 
-    pub fn insert(&mut self, at: OpcodeId, loc: Location, opcode: Opcode) { Parser::do_insert(at, loc, opcode, &mut self.functions) }
+    pub fn replace(&mut self, at: OpcodeId, loc: Location, opcodes: &[Opcode]) { Parser::do_replace(at, loc, opcodes, &mut self.functions) }
 
-    /// Inserts the provided instruction at the `OpcodeId`, and shifts all other code forward.
+    /// Replaces the instruction at the `OpcodeId`, with one or more instructions, and shifts all other code forward.
     ///
     /// **Implementation Note:** This does not take `&mut self` to allow the flexibility of partial borrows.
-    pub fn do_insert(at: OpcodeId, loc: Location, opcode: Opcode, functions: &mut [ParserFunctionImpl]) {
-        functions[at.function_id].code.blocks[at.code_id.block_id].insert(at.code_id.opcode_id, loc, opcode);
+    pub fn do_replace(at: OpcodeId, loc: Location, opcodes: &[Opcode], functions: &mut [ParserFunctionImpl]) {
+        functions[at.function_id].code.blocks[at.code_id.block_id].replace(at.code_id.opcode_id, loc, opcodes);
     }
 }
 
@@ -289,17 +289,9 @@ impl Block {
         opcode_id
     }
 
-    fn insert(&mut self, id: usize, loc: Location, opcode: Opcode) {
-        match self.code.iter().position(|(i, _, _)| i == &id) {
-            // The target `OpcodeId` was found, so insert immediately after, and shift all opcodes to the right
-            Some(code_id) => self.code.insert(code_id, (self.code.len(), loc, opcode)),
-            // The target `OpcodeId` was not found, which means this was an empty block
-            // Just push into the empty block
-            None => {
-                debug_assert!(self.code.is_empty()); // This should always be true, if we cannot find a matching `OpcodeId`
-                self.code.push((0, loc, opcode))
-            }
-        }
+    fn replace(&mut self, id: usize, loc: Location, opcodes: &[Opcode]) {
+        let code_id = self.code.iter().position(|(i, _, _)| i == &id).expect("Missing opcode");
+        self.code.splice(code_id..=code_id, opcodes.iter().map(|op| (id, loc, *op)));
     }
 
     fn end(&mut self, end: BlockEnd) {
diff --git a/cordy-sys/src/compiler/parser/core/mod.rs b/cordy-sys/src/compiler/parser/core/mod.rs
index 36bba9e..b7c9f3a 100644
--- a/cordy-sys/src/compiler/parser/core/mod.rs
+++ b/cordy-sys/src/compiler/parser/core/mod.rs
@@ -235,6 +235,7 @@ impl<'a> Parser<'a> {
             LValueReference::LateBinding(mut binding) => {
                 binding.update(ReferenceType::Load(self.next_opcode()));
                 self.late_bindings.push(*binding);
+                self.push_at(Nil, loc); // Placeholder, which is replaced when the binding is resolved
             }
 
             LValueReference::Invalid => {},
@@ -273,6 +274,7 @@ impl<'a> Parser<'a> {
             LValueReference::LateBinding(mut binding) => {
                 binding.update(ReferenceType::Store(self.next_opcode()));
                 self.late_bindings.push(*binding);
+                self.push_at(Nil, loc); // Placeholder, which is replaced when the binding is resolved
             }
 
             LValueReference::Invalid => {},
diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 6c562d4..23978af 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1068,8 +1068,8 @@ impl<'a> Parser<'a> {
 
                 // Update the binding if possible
                 match (binding.ty, &result) {
-                    (ReferenceType::Load(at), LateBound::Local(index)) => self.insert(at, binding.loc, PushGlobal(*index)),
-                    (ReferenceType::Store(at), LateBound::Local(index)) => self.insert(at, binding.loc, StoreGlobal(*index, false)),
+                    (ReferenceType::Load(at), LateBound::Local(index)) => self.replace(at, binding.loc, &[PushGlobal(*index)]),
+                    (ReferenceType::Store(at), LateBound::Local(index)) => self.replace(at, binding.loc, &[StoreGlobal(*index, false)]),
                     (ReferenceType::StorePattern(pattern_index), LateBound::Local(local)) => {
                         // Need to update all the matching late bound globals in the pattern
                         let pattern = &mut self.patterns[pattern_index];
@@ -1088,23 +1088,16 @@ impl<'a> Parser<'a> {
                             match binding.this {
                                 LValueReference::Invalid => self.error_at(binding.loc, UndeclaredSelf),
 
-                                // Since we have a single reference point for insert, we need to insert in reverse order from the same point
                                 // Slightly different opcodes for `LocalThis` vs. `UpValueThis`
-                                LValueReference::LocalThis(index) => {
-                                    self.insert(at.clone(), binding.loc, GetMethod(*function_id));
-                                    self.insert(at, binding.loc, PushLocal(index))
-                                }
-                                LValueReference::UpValueThis(index) => {
-                                    self.insert(at.clone(), binding.loc, GetMethod(*function_id));
-                                    self.insert(at, binding.loc, PushUpValue(index))
-                                },
+                                LValueReference::LocalThis(index) => self.replace(at, binding.loc, &[PushLocal(index), GetMethod(*function_id)]),
+                                LValueReference::UpValueThis(index) => self.replace(at, binding.loc, &[PushUpValue(index), GetMethod(*function_id)]),
 
                                 lvalue => panic!("`self` should not be bound to {:?}", lvalue)
                             }
                         } else {
                             // If the current method is a non-self method, then references to it just use the function ID
                             // Both self methods and non-self methods can call it this way.
-                            self.insert(at, binding.loc, Constant(*function_id));
+                            self.replace(at, binding.loc, &[Constant(*function_id)]);
                         }
                     },
                     (ReferenceType::Store(_) | ReferenceType::StorePattern(_), LateBound::Method { .. }) => self.error_at(binding.loc, AssignmentTargetInvalid),
@@ -1122,8 +1115,8 @@ impl<'a> Parser<'a> {
         for binding in self.late_bindings.drain(..) {
             if let Some(fallback) = binding.fallback {
                 match binding.ty {
-                    ReferenceType::Load(at) => Parser::do_insert(at, binding.loc, PushGlobal(fallback), &mut self.functions),
-                    ReferenceType::Store(at) => Parser::do_insert(at, binding.loc, StoreGlobal(fallback, false), &mut self.functions),
+                    ReferenceType::Load(at) => Parser::do_replace(at, binding.loc, &[PushGlobal(fallback)], &mut self.functions),
+                    ReferenceType::Store(at) => Parser::do_replace(at, binding.loc, &[StoreGlobal(fallback, false)], &mut self.functions),
                     ReferenceType::StorePattern(pattern_index) => {
                         self.patterns[pattern_index].visit(&mut |op| {
                             if let ParserStoreOp::LateBoundGlobal(index) = op {
-- 
2.43.0


From 808ddb3b5cdcc2c3726bb47c5472d549bc7fe4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 23/73] fix: strings only use escape sequences in repr that
 string literals support

---
 cordy-sys/src/vm/value/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index 8532bf7..e1114cd 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -231,8 +231,18 @@ impl ValuePtr {
                 Cow::from("")
             ),
             Type::ShortStr | Type::LongStr => {
-                let escaped = format!("{:?}", self.as_str_slice());
-                Cow::from(format!("'{}'", &escaped[1..escaped.len() - 1]))
+                let mut escaped = String::from("'");
+                for c in self.as_str_slice().chars() {
+                    match c { // Only use escape sequences that are supported by string literals
+                        '"' | '\\' => { escaped.push('\\'); escaped.push(c); },
+                        '\n' => escaped.push_str("\\n"),
+                        '\r' => escaped.push_str("\\r"),
+                        '\t' => escaped.push_str("\\t"),
+                        _ => escaped.push(c)
+                    }
+                }
+                escaped.push('\'');
+                Cow::from(escaped)
             },
 
             Type::List => recursive_guard!(
-- 
2.43.0


From a3191ad97d087468a75679dd0f467de89f3f0128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:25 +0000
Subject: [PATCH 24/73] fix: integer arithmetic wraps around for all operands

---
 cordy-sys/src/core/collections.rs |  2 +-
 cordy-sys/src/core/math.rs        |  6 +++++-
 cordy-sys/src/vm/operator.rs      | 23 +++++++++++++++++++----
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 550fecf..0a18931 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -151,7 +151,7 @@ fn rev_range(start_high_inclusive: i64, stop_low_exclusive: i64, step_size: i64)
 pub fn sum(args: impl Iterator<Item=ValuePtr>) -> ValueResult {
     let mut sum: i64 = 0;
     for v in args {
-        sum += v.as_int_checked()?;
+        sum = sum.wrapping_add(v.as_int_checked()?);
     }
     sum.to_value().ok()
 }
diff --git a/cordy-sys/src/core/math.rs b/cordy-sys/src/core/math.rs
index 78fd6da..568df1b 100644
--- a/cordy-sys/src/core/math.rs
+++ b/cordy-sys/src/core/math.rs
@@ -115,7 +115,11 @@ pub fn lcm(mut args: impl Iterator<Item=ValuePtr>) -> ValueResult {
     };
 
     for arg in args {
-        acc = num_integer::lcm(acc, arg.as_int_checked()?);
+        let arg = arg.as_int_checked()?;
+        acc = match num_integer::gcd(acc, arg) {
+            0 => 0,
+            gcd => (acc / gcd).wrapping_mul(arg).wrapping_abs()
+        };
     }
 
     acc.to_value().ok()
diff --git a/cordy-sys/src/vm/operator.rs b/cordy-sys/src/vm/operator.rs
index 178ab1b..9264d70 100644
--- a/cordy-sys/src/vm/operator.rs
+++ b/cordy-sys/src/vm/operator.rs
@@ -139,7 +139,7 @@ pub fn unary_logical_not(a1: ValuePtr) -> ValueResult {
 
 pub fn binary_mul(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
     match (lhs.ty(), rhs.ty()) {
-        (Bool | Int, Bool | Int) => (lhs.as_int() * rhs.as_int()).to_value().ok(),
+        (Bool | Int, Bool | Int) => lhs.as_int().wrapping_mul(rhs.as_int()).to_value().ok(),
         (Bool | Int | Complex, Bool | Int | Complex) => (lhs.to_complex() * rhs.to_complex()).to_value().ok(),
         #[cfg(feature = "rational")]
         (Bool | Int | Rational, Bool | Int | Rational) => (lhs.to_rational() * rhs.to_rational()).to_value().ok(),
@@ -253,7 +253,7 @@ pub fn binary_pow(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
         (Bool | Int, Bool | Int) => {
             let rhs = rhs.as_int();
             match rhs >= 0 {
-                true => lhs.as_int().pow(rhs as u32).to_value().ok(),
+                true => i64_pow(lhs.as_int(), rhs).to_value().ok(),
                 false => ValueErrorPowerByNegative(rhs).err()
             }
         },
@@ -281,6 +281,19 @@ pub fn binary_pow(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
     }
 }
 
+/// Performs exponentiation by squaring, with wrapping arithmetic, for any non-negative exponent
+fn i64_pow(mut base: i64, mut exp: i64) -> i64 {
+    let mut acc: i64 = 1;
+    while exp > 0 {
+        if exp & 1 == 1 {
+            acc = acc.wrapping_mul(base);
+        }
+        base = base.wrapping_mul(base);
+        exp >>= 1;
+    }
+    acc
+}
+
 /// When `invert = true`, this is a `binary_is_not` operator
 pub fn binary_is(lhs: ValuePtr, rhs: ValuePtr, invert: bool) -> ValueResult {
     (match rhs.ty() {
@@ -386,10 +399,12 @@ pub fn binary_right_shift(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
 /// Performs a binary shift either left or right, based on the sign of `rhs`. Positive values shift left, negative values shift right.
 #[inline]
 fn i64_left_shift(lhs: i64, rhs: i64) -> i64 {
-    if rhs >= 0 {
+    if rhs >= 64 {
+        0
+    } else if rhs >= 0 {
         lhs << rhs
     } else {
-        lhs >> (-rhs)
+        lhs >> (-rhs).min(63)
     }
 }
 
-- 
2.43.0


From 633371d7fe9df7de2ac5854f7742bb34dfe405a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:33 +0000
Subject: [PATCH 25/73] fix: int, hex, bin, ord and chr check the whole range
 of their argument

---
 cordy-sys/src/core/math.rs    |  3 ++-
 cordy-sys/src/core/strings.rs | 12 ++++++------
 cordy-sys/src/util.rs         | 13 ++++++++++++-
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/cordy-sys/src/core/math.rs b/cordy-sys/src/core/math.rs
index 568df1b..e3d01b7 100644
--- a/cordy-sys/src/core/math.rs
+++ b/cordy-sys/src/core/math.rs
@@ -7,6 +7,7 @@ use num_integer::Roots;
 
 use crate::vm::{ComplexType, IntoValue, operator, RuntimeError, Type, ValuePtr, ValueResult};
 use crate::core::NativeFunction::{Gcd, Lcm};
+use crate::util;
 
 use RuntimeError::{*};
 
@@ -16,7 +17,7 @@ pub fn convert_to_int(target: ValuePtr, default: Option<ValuePtr>) -> ValueResul
         Type::Nil => 0i64.to_value().ok(),
         Type::Bool => target.as_int().to_value().ok(),
         Type::Int => target.ok(),
-        Type::ShortStr | Type::LongStr => match target.as_str_slice().parse::<i64>() {
+        Type::ShortStr | Type::LongStr => match util::parse_int(target.as_str_slice(), 10) {
             Ok(i) => i.to_value().ok(),
             Err(err) => match default {
                 Some(a2) => a2.ok(),
diff --git a/cordy-sys/src/core/strings.rs b/cordy-sys/src/core/strings.rs
index 2fef6a7..b56847e 100644
--- a/cordy-sys/src/core/strings.rs
+++ b/cordy-sys/src/core/strings.rs
@@ -195,16 +195,16 @@ pub fn chr(value: ValuePtr) -> ValueResult {
     if i <= 0 {
         return ValueErrorInvalidCharacterOrdinal(i).err()
     }
-    match char::from_u32(i as u32) {
+    match u32::try_from(i).ok().and_then(char::from_u32) {
         Some(c) => c.to_value().ok(),
         None => ValueErrorInvalidCharacterOrdinal(i).err()
     }
 }
 
 pub fn ord(value: ValuePtr) -> ValueResult {
-    let text = value.as_str_checked()?;
-    match text.len() {
-        1 => (text.chars().next().unwrap() as u32 as i64)
+    let mut chars = value.as_str_checked()?.chars();
+    match (chars.next(), chars.next()) {
+        (Some(c), None) => (c as u32 as i64)
             .to_value()
             .ok(),
         _ => TypeErrorArgMustBeChar(value).err(),
@@ -214,7 +214,7 @@ pub fn ord(value: ValuePtr) -> ValueResult {
 pub fn hex(value: ValuePtr) -> ValueResult {
     match value.ty() {
         Type::Int => format!("{:x}", value.as_precise_int()).to_value().ok(),
-        Type::ShortStr | Type::LongStr => match i64::from_str_radix(value.as_str_slice(), 16).ok() {
+        Type::ShortStr | Type::LongStr => match util::parse_int(value.as_str_slice(), 16).ok() {
             Some(int) => int.to_value().ok(),
             _ => TypeErrorCannotConvertToInt(value).err()
         },
@@ -225,7 +225,7 @@ pub fn hex(value: ValuePtr) -> ValueResult {
 pub fn bin(value: ValuePtr) -> ValueResult {
     match value.ty() {
         Type::Int => format!("{:b}", value.as_precise_int()).to_value().ok(),
-        Type::ShortStr | Type::LongStr => match i64::from_str_radix(value.as_str_slice(), 2).ok() {
+        Type::ShortStr | Type::LongStr => match util::parse_int(value.as_str_slice(), 2).ok() {
             Some(int) => int.to_value().ok(),
             _ => TypeErrorCannotConvertToInt(value).err()
         }
diff --git a/cordy-sys/src/util.rs b/cordy-sys/src/util.rs
index fcb4ab0..931e8f7 100644
--- a/cordy-sys/src/util.rs
+++ b/cordy-sys/src/util.rs
@@ -1,12 +1,13 @@
 use std::cell::RefCell;
 use std::io;
 use std::io::{BufRead, Read, Write};
+use std::num::ParseIntError;
 use std::ops::{ControlFlow, Try};
 use std::rc::Rc;
 
 #[cfg(test)] use pretty_assertions::{assert_eq};
 
-use crate::vm::{ErrorPtr, ErrorResult};
+use crate::vm::{ErrorPtr, ErrorResult, ValuePtr};
 
 
 pub fn strip_line_ending(buffer: &mut String) {
@@ -43,6 +44,16 @@ pub fn join<T, E, R : Try<Output=T, Residual=E>>(result: T, err: Option<E>) -> R
 }
 
 
+/// Parses an integer, which must be representable as a Cordy `int`, which is a 63-bit signed value.
+pub fn parse_int(text: &str, radix: u32) -> Result<i64, ParseIntError> {
+    match i64::from_str_radix(text, radix)? {
+        value if value > ValuePtr::MAX_INT => "128".parse::<i8>().map(i64::from), // Same error as when the value would overflow an `i64`
+        value if value < ValuePtr::MIN_INT => "-129".parse::<i8>().map(i64::from),
+        value => Ok(value)
+    }
+}
+
+
 pub trait OffsetAdd<F> {
     fn add_offset(self, offset: F) -> Self;
 }
-- 
2.43.0


From f77d15c976859e0870856a17f7ecebdbb241bb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 26/73] fix: stop invoking a callback after it raised an error

---
 cordy-sys/src/util.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cordy-sys/src/util.rs b/cordy-sys/src/util.rs
index 931e8f7..e1f5bb8 100644
--- a/cordy-sys/src/util.rs
+++ b/cordy-sys/src/util.rs
@@ -20,10 +20,14 @@ pub fn strip_line_ending(buffer: &mut String) {
 }
 
 /// Used to wrap a function that might normally error, with one that passes the error up (i.e. outside of a closure), and returns a default to the inner function.
+/// Once an error has been caught, the function is not invoked again, and only the default is returned.
 ///
 /// N.B. This did not work without specifying the types `Box<RuntimeError>` exactly. I do not know why.
 #[inline(always)]
 pub fn catch<T>(err: &mut Option<ErrorPtr>, f: impl FnOnce() -> ErrorResult<T>, default: T) -> T {
+    if err.is_some() {
+        return default
+    }
     match f().branch() {
         ControlFlow::Continue(e) => e,
         ControlFlow::Break(Err(e)) => {
-- 
2.43.0


From e494eae9767d1491dd530771612dc72ff8378de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 27/73] fix: errors when matching a regex are raised by
 replace, search and split

---
 cordy-sys/src/core/strings.rs | 97 ++++++++++++++++++++++-------------
 cordy-sys/src/reporting.rs    |  1 +
 cordy-sys/src/vm/error.rs     |  1 +
 3 files changed, 62 insertions(+), 37 deletions(-)

diff --git a/cordy-sys/src/core/strings.rs b/cordy-sys/src/core/strings.rs
index b56847e..6aa45d9 100644
--- a/cordy-sys/src/core/strings.rs
+++ b/cordy-sys/src/core/strings.rs
@@ -1,10 +1,10 @@
 use std::iter::{FusedIterator, Peekable};
 use std::str::Chars;
-use fancy_regex::{Captures, Matches, Regex};
+use fancy_regex::{Captures, Matches, Regex, Replacer};
 
 use crate::core::InvokeArg1;
 use crate::util;
-use crate::vm::{ErrorPtr, ErrorResult, IntoIterableValue, IntoValue, Iterable, RuntimeError, Type, ValuePtr, ValueResult, VirtualInterface};
+use crate::vm::{ErrorResult, IntoIterableValue, IntoValue, Iterable, RuntimeError, Type, ValuePtr, ValueResult, VirtualInterface};
 
 use RuntimeError::{*};
 
@@ -35,19 +35,36 @@ pub fn replace<VM: VirtualInterface>(vm: &mut VM, pattern: ValuePtr, replacer: V
     let text = target.as_str_checked()?;
     if replacer.is_evaluable() {
         let replacer: InvokeArg1 = InvokeArg1::from(replacer)?;
-        let mut err = None;
-        let replaced: ValuePtr = regex.replace_all(text, |captures: &Captures| {
+        replace_all(&regex, text, |captures, output| {
             let arg: ValuePtr = as_result(captures);
-            util::catch::<String>(&mut err,
-                || Ok(String::from(replacer.invoke(arg, vm)?.as_str_checked()?)),
-                String::new())
-        }).to_value();
-        util::join::<ValuePtr, ErrorPtr, ValueResult>(replaced, err)
+            output.push_str(replacer.invoke(arg, vm)?.as_str_checked()?);
+            Ok(())
+        })
     } else {
-        regex.replace_all(text, replacer.as_str_checked()?)
-            .to_value()
-            .ok()
+        let mut replacer: &str = replacer.as_str_checked()?;
+        replace_all(&regex, text, |captures, output| {
+            replacer.replace_append(captures, output);
+            Ok(())
+        })
+    }
+}
+
+/// Equivalent to `Regex::replace_all()`, which additionally propagates errors raised both when matching, and when replacing.
+fn replace_all(regex: &Regex, text: &str, mut replacer: impl FnMut(&Captures, &mut String) -> ErrorResult<()>) -> ValueResult {
+    let mut output: String = String::with_capacity(text.len());
+    let mut last: usize = 0;
+
+    for captures in regex.captures_iter(text) {
+        let captures = checked(regex, captures)?;
+        let matched = captures.get(0).unwrap();
+
+        output.push_str(&text[last..matched.start()]);
+        replacer(&captures, &mut output)?;
+        last = matched.end();
     }
+
+    output.push_str(&text[last..]);
+    output.to_value().ok()
 }
 
 pub fn search(pattern: ValuePtr, target: ValuePtr) -> ValueResult {
@@ -55,23 +72,20 @@ pub fn search(pattern: ValuePtr, target: ValuePtr) -> ValueResult {
     let text: &str = target.as_str_checked()?;
 
     let mut start: usize = 0;
-    std::iter::from_fn(move || {
-        match regex.captures_from_pos(text, start).unwrap() {
-            Some(captures) => {
-                let end = captures.get(0).unwrap().end();
-                if start == end {
-                    // If we match a zero-length group, this regex will run infinitely - so the only sensible way to handle this here is to abort
-                    // Regex captures are greedy by default, so this will trigger only,
-                    // - If we can *only* match an empty string, which will return nothing
-                    // - If we've already matched the whole string, and now are matching *against* an empty string, which will return the existing match
-                    return None
-                }
-                start = end;
-                Some(as_result(&captures))
-            },
-            None => None
+    let mut matches: Vec<ValuePtr> = Vec::new();
+    while let Some(captures) = checked(&regex, regex.captures_from_pos(text, start))? {
+        let end = captures.get(0).unwrap().end();
+        if start == end {
+            // If we match a zero-length group, this regex will run infinitely - so the only sensible way to handle this here is to abort
+            // Regex captures are greedy by default, so this will trigger only,
+            // - If we can *only* match an empty string, which will return nothing
+            // - If we've already matched the whole string, and now are matching *against* an empty string, which will return the existing match
+            break
         }
-    }).to_list().ok()
+        start = end;
+        matches.push(as_result(&captures));
+    }
+    matches.into_iter().to_list().ok()
 }
 
 pub fn split(pattern: ValuePtr, target: ValuePtr) -> ValueResult {
@@ -85,10 +99,19 @@ pub fn split(pattern: ValuePtr, target: ValuePtr) -> ValueResult {
 
     let regex: Regex = compile_regex(pattern)?;
 
-    fancy_split(&regex, target.as_str_checked()?)
-        .map(|u| u.to_value())
-        .to_list()
-        .ok()
+    let mut parts: Vec<ValuePtr> = Vec::new();
+    for part in fancy_split(&regex, target.as_str_checked()?) {
+        parts.push(checked(&regex, part)?.to_value());
+    }
+    parts.into_iter().to_list().ok()
+}
+
+/// Matching a regex might fail, as there is a limit on the amount of backtracking that can be done.
+fn checked<T>(regex: &Regex, result: fancy_regex::Result<T>) -> ErrorResult<T> {
+    match result {
+        Ok(value) => Ok(value),
+        Err(e) => ValueErrorCannotMatchRegex(String::from(regex.as_str()), e.to_string()).err()
+    }
 }
 
 fn as_result(captures: &Captures) -> ValuePtr {
@@ -140,9 +163,9 @@ struct FancySplit<'r, 't> {
 }
 
 impl<'r, 't> Iterator for FancySplit<'r, 't> {
-    type Item = &'t str;
+    type Item = fancy_regex::Result<&'t str>;
 
-    fn next(&mut self) -> Option<&'t str> {
+    fn next(&mut self) -> Option<fancy_regex::Result<&'t str>> {
         let text = self.finder.text();
         match self.finder.next() {
             None => {
@@ -151,15 +174,15 @@ impl<'r, 't> Iterator for FancySplit<'r, 't> {
                 } else {
                     let s = &text[self.last..];
                     self.last = text.len() + 1; // Next call will return None
-                    Some(s)
+                    Some(Ok(s))
                 }
             }
             Some(Ok(m)) => {
                 let matched = &text[self.last..m.start()];
                 self.last = m.end();
-                Some(matched)
+                Some(Ok(matched))
             },
-            _ => None
+            Some(Err(e)) => Some(Err(e))
         }
     }
 }
diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index 8064081..806d8e0 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -342,6 +342,7 @@ impl AsError for RuntimeError {
             ValueErrorMissingRequiredArgumentInStringFormatting => String::from("ValueError: Not enough arguments for format string"),
             ValueErrorEvalListMustHaveUnitLength(len) => format!("ValueError: Evaluating an index must have len = 1, got len = {}", len),
             ValueErrorCannotCompileRegex(raw, err) => format!("ValueError: Cannot compile regex '{}'\n            {}", raw, err),
+            ValueErrorCannotMatchRegex(raw, err) => format!("ValueError: Cannot match regex '{}'\n            {}", raw, err),
             ValueErrorRecursiveHash => String::from("ValueError: Cannot create recursive hash-based collection"),
 
             TypeErrorUnaryOp(op, v) => format!("TypeError: Operator unary '{}' is not supported for type {}", op.as_error(), v.as_type_str()),
diff --git a/cordy-sys/src/vm/error.rs b/cordy-sys/src/vm/error.rs
index 8f9b76a..f1c4b4a 100644
--- a/cordy-sys/src/vm/error.rs
+++ b/cordy-sys/src/vm/error.rs
@@ -50,6 +50,7 @@ pub enum RuntimeError {
     ValueErrorMissingRequiredArgumentInStringFormatting,
     ValueErrorEvalListMustHaveUnitLength(usize),
     ValueErrorCannotCompileRegex(String, String),
+    ValueErrorCannotMatchRegex(String, String),
     ValueErrorRecursiveHash,
 
     TypeErrorUnaryOp(UnaryOp, ValuePtr),
-- 
2.43.0


From e81ee9241d15bb29a63889a093e3811ab7a2bd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:37 +0000
Subject: [PATCH 28/73] fix: raise an error for format strings with a width
 that is too large

---
 cordy-sys/src/core/strings.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/core/strings.rs b/cordy-sys/src/core/strings.rs
index 6aa45d9..ac07b5f 100644
--- a/cordy-sys/src/core/strings.rs
+++ b/cordy-sys/src/core/strings.rs
@@ -318,7 +318,11 @@ impl<'a> StringFormatter<'a> {
                         }
                     }
 
-                    let padding: usize = if buffer.is_empty() { 0 } else { buffer.parse::<usize>().unwrap() };
+                    let padding: usize = match buffer.parse::<u32>() {
+                        Ok(padding) => padding as usize,
+                        Err(_) if buffer.is_empty() => 0,
+                        Err(_) => return ValueErrorValueWouldBeTooLarge.err()
+                    };
 
                     let text = match (self.peek(), is_zero_padded) {
                         (Some('d'), false) => format!("{:width$}", self.arg()?.as_int_checked()?, width = padding),
-- 
2.43.0


From ead13f26c7256c46a9d44f7cb6c7189279cb6227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:37 +0000
Subject: [PATCH 29/73] fix: raise an error for a negative power of a rational
 zero

---
 cordy-sys/src/vm/operator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cordy-sys/src/vm/operator.rs b/cordy-sys/src/vm/operator.rs
index 9264d70..6b73b8c 100644
--- a/cordy-sys/src/vm/operator.rs
+++ b/cordy-sys/src/vm/operator.rs
@@ -268,6 +268,7 @@ pub fn binary_pow(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
         (Rational, Bool | Int) => {
             let lhs = lhs.to_rational();
             match i32::try_from(rhs.as_int()) {
+                Ok(rhs) if rhs < 0 && lhs.is_zero() => ValueErrorDivideByZero.err(),
                 Ok(rhs) => lhs.pow(rhs).to_value().ok(),
                 Err(_) => ValueErrorValueWouldBeTooLarge.err()
             }
-- 
2.43.0


From 9196002ec24abb23a64a9057054a943c3253f528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:23 +0000
Subject: [PATCH 30/73] fix: complex arithmetic wraps around, and division uses
 wide intermediate products

---
 cordy-sys/src/vm/operator.rs | 51 +++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/cordy-sys/src/vm/operator.rs b/cordy-sys/src/vm/operator.rs
index 6b73b8c..8369698 100644
--- a/cordy-sys/src/vm/operator.rs
+++ b/cordy-sys/src/vm/operator.rs
@@ -1,4 +1,5 @@
 use std::collections::VecDeque;
+use std::num::Wrapping;
 
 #[cfg(feature = "rational")] use rug::ops::Pow;
 
@@ -114,7 +115,7 @@ impl From<BinaryOp> for CompareOp {
 pub fn unary_sub(a1: ValuePtr) -> ValueResult {
     match a1.ty() {
         Bool | Int => (-a1.as_int()).to_value().ok(),
-        Complex => (-a1.as_complex()).to_value().ok(),
+        Complex => from_wrapping(-to_wrapping(*a1.as_complex())).to_value().ok(),
         #[cfg(feature = "rational")]
         Rational => (-a1.as_rational().clone()).to_value().ok(),
         Vector => apply_vector_unary(a1, unary_sub),
@@ -126,7 +127,7 @@ pub fn unary_not(a1: ValuePtr) -> ValueResult {
     match a1.ty() {
         Bool => (!a1.as_bool()).to_value().ok(),
         Int => (!a1.as_int()).to_value().ok(),
-        Complex => a1.as_complex().conj().to_value().ok(),
+        Complex => from_wrapping(to_wrapping(*a1.as_complex()).conj()).to_value().ok(),
         Vector => apply_vector_unary(a1, unary_not),
         _ => TypeErrorUnaryOp(UnaryOp::Not, a1).err(),
     }
@@ -140,7 +141,7 @@ pub fn unary_logical_not(a1: ValuePtr) -> ValueResult {
 pub fn binary_mul(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
     match (lhs.ty(), rhs.ty()) {
         (Bool | Int, Bool | Int) => lhs.as_int().wrapping_mul(rhs.as_int()).to_value().ok(),
-        (Bool | Int | Complex, Bool | Int | Complex) => (lhs.to_complex() * rhs.to_complex()).to_value().ok(),
+        (Bool | Int | Complex, Bool | Int | Complex) => from_wrapping(to_wrapping(lhs.to_complex()) * to_wrapping(rhs.to_complex())).to_value().ok(),
         #[cfg(feature = "rational")]
         (Bool | Int | Rational, Bool | Int | Rational) => (lhs.to_rational() * rhs.to_rational()).to_value().ok(),
         (ShortStr | LongStr, Int) => binary_str_repeat(lhs, rhs),
@@ -191,7 +192,7 @@ pub fn binary_div(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
         },
         (Bool | Int | Complex, Bool | Int | Complex) => {
             let rhs = rhs.to_complex();
-            match rhs.norm_sqr() == 0 {
+            match rhs.re == 0 && rhs.im == 0 {
                 true => ValueErrorDivideByZero.err(),
                 false => c64_div_floor(lhs.to_complex(), rhs).to_value().ok()
             }
@@ -213,12 +214,29 @@ pub fn binary_div(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
 
 /// The `C64` type provided by `num-complex` defines `div()` using regular rust division.
 /// This is a clone of that but using `floor_div` provided by `num-integer`, which keeps consistency with how we define division for `complex / int`
+///
+/// The intermediate products are computed with `i128`, as they need not fit in an `i64`, even if the result does.
 #[inline]
 fn c64_div_floor(lhs: ComplexType, rhs: ComplexType) -> ComplexType {
+    let lhs: Complex128 = Complex128::new(lhs.re as i128, lhs.im as i128);
+    let rhs: Complex128 = Complex128::new(rhs.re as i128, rhs.im as i128);
     let norm_sqr = rhs.norm_sqr();
-    let re = lhs.re * rhs.re + lhs.im * rhs.im;
-    let im = lhs.im * rhs.re - lhs.re * rhs.im;
-    ComplexType::new(num_integer::div_floor(re, norm_sqr), num_integer::div_floor(im, norm_sqr))
+    let product = lhs * rhs.conj();
+    ComplexType::new(num_integer::div_floor(product.re, norm_sqr) as i64, num_integer::div_floor(product.im, norm_sqr) as i64)
+}
+
+type Complex128 = num_complex::Complex<i128>;
+type ComplexWrapping = num_complex::Complex<Wrapping<i64>>;
+
+/// Complex arithmetic wraps around, the same as integer arithmetic does.
+#[inline]
+fn to_wrapping(value: ComplexType) -> ComplexWrapping {
+    ComplexWrapping::new(Wrapping(value.re), Wrapping(value.im))
+}
+
+#[inline]
+fn from_wrapping(value: ComplexWrapping) -> ComplexType {
+    ComplexType::new(value.re.0, value.im.0)
 }
 
 pub fn binary_mod(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
@@ -260,7 +278,7 @@ pub fn binary_pow(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
         (Complex, Bool | Int) => {
             let rhs = rhs.as_int();
             match rhs >= 0 {
-                true => lhs.as_complex().powu(rhs as u32).to_value().ok(),
+                true => from_wrapping(c64_pow(to_wrapping(*lhs.as_complex()), rhs)).to_value().ok(),
                 false => ValueErrorPowerByNegative(rhs).err()
             }
         },
@@ -295,6 +313,19 @@ fn i64_pow(mut base: i64, mut exp: i64) -> i64 {
     acc
 }
 
+/// Same as `i64_pow()`, for complex values
+fn c64_pow(mut base: ComplexWrapping, mut exp: i64) -> ComplexWrapping {
+    let mut acc: ComplexWrapping = to_wrapping(ComplexType::new(1, 0));
+    while exp > 0 {
+        if exp & 1 == 1 {
+            acc = acc * base;
+        }
+        base = base * base;
+        exp >>= 1;
+    }
+    acc
+}
+
 /// When `invert = true`, this is a `binary_is_not` operator
 pub fn binary_is(lhs: ValuePtr, rhs: ValuePtr, invert: bool) -> ValueResult {
     (match rhs.ty() {
@@ -337,7 +368,7 @@ pub fn binary_in(lhs: ValuePtr, rhs: ValuePtr, invert: bool) -> ValueResult {
 pub fn binary_add(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
     match (lhs.ty(), rhs.ty()) {
         (Bool | Int, Bool | Int) => (lhs.as_int() + rhs.as_int()).to_value().ok(),
-        (Bool | Int | Complex, Bool | Int | Complex) => (lhs.to_complex() + rhs.to_complex()).to_value().ok(),
+        (Bool | Int | Complex, Bool | Int | Complex) => from_wrapping(to_wrapping(lhs.to_complex()) + to_wrapping(rhs.to_complex())).to_value().ok(),
         #[cfg(feature = "rational")]
         (Bool | Int | Rational, Bool | Int | Rational) => (lhs.to_rational() + rhs.to_rational()).to_value().ok(),
         (List, List) => {
@@ -360,7 +391,7 @@ pub fn binary_add(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
 pub fn binary_sub(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
     match (lhs.ty(), rhs.ty()) {
         (Bool | Int, Bool | Int) => (lhs.as_int() - rhs.as_int()).to_value().ok(),
-        (Bool | Int | Complex, Bool | Int | Complex) => (lhs.to_complex() - rhs.to_complex()).to_value().ok(),
+        (Bool | Int | Complex, Bool | Int | Complex) => from_wrapping(to_wrapping(lhs.to_complex()) - to_wrapping(rhs.to_complex())).to_value().ok(),
         #[cfg(feature = "rational")]
         (Bool | Int | Rational, Bool | Int | Rational) => (lhs.to_rational() - rhs.to_rational()).to_value().ok(),
         (Set, Set) => {
-- 
2.43.0


From f947eec5f50113cfa35f1dad458f6696f48475f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:04 +0000
Subject: [PATCH 31/73] fix: clamp the bounds of a slice to the collection

---
 cordy-sys/src/core/collections.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 0a18931..38444d2 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -102,8 +102,10 @@ pub fn get_slice(target: &ValuePtr, low: ValuePtr, high: ValuePtr, step: ValuePt
     let low: i64 = unwrap_or(low, if step > 0 { 0 } else { -1 })?;
     let high: i64 = unwrap_or(high, if step > 0 { length } else { -length - 1 })?;
 
-    let abs_start: i64 = to_index(length, low);
-    let abs_stop: i64 = to_index(length, high);
+    // Bounds outside the collection are clamped, in the direction of the slice
+    let (min, max): (i64, i64) = if step > 0 { (0, length) } else { (-1, length - 1) };
+    let abs_start: i64 = to_index(length, low).clamp(min, max);
+    let abs_stop: i64 = to_index(length, high).clamp(min, max);
     let abs_step: usize = step.unsigned_abs() as usize;
 
     if step > 0 {
-- 
2.43.0


From a29962f345f4d3adab6817210e3a5f88787d36b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:21 +0000
Subject: [PATCH 32/73] fix: union, intersect and difference of a set with
 itself

---
 cordy-sys/src/core/collections.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 38444d2..ea81f59 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -645,8 +645,10 @@ pub fn set_union(other: ValuePtr, this: ValuePtr) -> ValueResult {
     match this.ty() {
         Type::Set => {
             // this.union(other) := add everything from other to this
+            // `other` may be the same set as `this`, so it must be collected first
+            let other: Vec<ValuePtr> = other.to_iter()?.collect();
             let mut set = this.as_set().borrow_mut();
-            for e in other.to_iter()? {
+            for e in other {
                 set.insert(e);
             }
             drop(set);
@@ -661,8 +663,8 @@ pub fn set_intersect(other: ValuePtr, this: ValuePtr) -> ValueResult {
         Type::Set => {
             // this.intersect(other) := only keep elements of this that are also in other
             // Since we have just an iterator, we need to compute a set of `other`, then repeatedly check `contains()` for each element in `this`
-            let mut set = this.as_set().borrow_mut();
             let other = other.to_iter()?.collect::<IndexSet<ValuePtr, FxBuildHasher>>();
+            let mut set = this.as_set().borrow_mut();
             set.retain(|e| other.contains(e));
             drop(set);
             this.ok()
@@ -675,10 +677,10 @@ pub fn set_difference(other: ValuePtr, this: ValuePtr) -> ValueResult {
     match this.ty() {
         Type::Set => {
             // this.difference(other) := remove everything from this that is in other
+            // `other` may be the same set as `this`, so it must be collected first
+            let other = other.to_iter()?.collect::<IndexSet<ValuePtr, FxBuildHasher>>();
             let mut set = this.as_set().borrow_mut();
-            for e in other.to_iter()? {
-                set.remove(&e);
-            }
+            set.retain(|e| !other.contains(e));
             drop(set);
             this.ok()
         },
-- 
2.43.0


From 5de6385b2383611131d5baa884d0e76ea869b137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:52 +0000
Subject: [PATCH 33/73] fix: rationals which equal an integer hash the same as
 the integer

---
 cordy-sys/src/vm/value/ptr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/vm/value/ptr.rs b/cordy-sys/src/vm/value/ptr.rs
index f396b59..0fa0964 100644
--- a/cordy-sys/src/vm/value/ptr.rs
+++ b/cordy-sys/src/vm/value/ptr.rs
@@ -569,10 +569,10 @@ impl Hash for ValuePtr {
             Type::Complex => hash!(as_complex),
             #[cfg(feature = "rational")]
             Type::Rational => {
-                // If rationals are expressible as 64-bit integers, they must hash identical to those
+                // If rationals are expressible as integers, they must hash identical to those
                 let value = self.as_rational();
                 match value.numer().to_i64() {
-                    Some(int) if value.denom() == &SmallInteger::from(0) => (int as u64).hash(state),
+                    Some(int) if value.denom() == &SmallInteger::from(1) => int.to_value().hash(state),
                     _ => value.hash(state),
                 }
             },
-- 
2.43.0


From 39c2312beeb6025c7bcd68fe86b46a6db5eb56d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 34/73] fix: hash of sets and dicts does not depend on
 insertion order

---
 cordy-sys/src/vm/value/collections.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/cordy-sys/src/vm/value/collections.rs b/cordy-sys/src/vm/value/collections.rs
index 2b48c8d..f50c687 100644
--- a/cordy-sys/src/vm/value/collections.rs
+++ b/cordy-sys/src/vm/value/collections.rs
@@ -3,7 +3,7 @@ use std::cmp::{Ordering, Reverse};
 use std::collections::{BinaryHeap, VecDeque};
 use std::hash::{Hash, Hasher};
 use std::ops::{Deref, DerefMut};
-use fxhash::FxBuildHasher;
+use fxhash::{FxBuildHasher, FxHasher};
 use indexmap::{IndexMap, IndexSet};
 
 use crate::core::InvokeArg0;
@@ -116,9 +116,7 @@ impl Hash for Prefix<Set> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         match self.try_borrow() {
             Some(it) => {
-                for v in &it.set {
-                    v.hash(state)
-                }
+                hash_unordered(it.set.iter(), state)
             },
             None => FLAG_RECURSIVE_HASH.with(|cell| cell.set(true)),
         }
@@ -179,15 +177,24 @@ impl Hash for Prefix<Dict> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         match self.try_borrow() {
             Some(it) => {
-                for v in &it.dict {
-                    v.hash(state)
-                }
+                hash_unordered(it.dict.iter(), state)
             },
             None => FLAG_RECURSIVE_HASH.with(|cell| cell.set(true))
         }
     }
 }
 
+/// Equality of `set` and `dict` does not depend on the insertion order, and so their hash must not either.
+fn hash_unordered<T : Hash, H: Hasher>(it: impl Iterator<Item=T>, state: &mut H) {
+    let mut sum: u64 = 0;
+    for v in it {
+        let mut hasher = FxHasher::default();
+        v.hash(&mut hasher);
+        sum = sum.wrapping_add(hasher.finish());
+    }
+    sum.hash(state);
+}
+
 
 // Support for `set` and `dict` recursive hash exceptions
 thread_local! {
-- 
2.43.0


From 99c83c88e2bc7822c51f816de3c7f8fb0e42fb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:07 +0000
Subject: [PATCH 35/73] fix: order of sets and dicts is consistent with their
 equality

---
 cordy-sys/src/vm/value/collections.rs | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/cordy-sys/src/vm/value/collections.rs b/cordy-sys/src/vm/value/collections.rs
index f50c687..c82ea47 100644
--- a/cordy-sys/src/vm/value/collections.rs
+++ b/cordy-sys/src/vm/value/collections.rs
@@ -87,13 +87,7 @@ impl Set {
 impl_partial_ord!(Set);
 impl Ord for Set {
     fn cmp(&self, other: &Self) -> Ordering {
-        for (l, r) in self.iter().zip(other.iter()) {
-            match l.cmp(r) {
-                Ordering::Equal => {},
-                ord => return ord,
-            }
-        }
-        self.len().cmp(&other.len())
+        cmp_unordered(self.iter(), other.iter())
     }
 }
 
@@ -162,13 +156,7 @@ impl PartialOrd for Dict { fn partial_cmp(&self, other: &Self) -> Option<Orderin
 
 impl Ord for Dict {
     fn cmp(&self, other: &Self) -> Ordering {
-        for (l, r) in self.keys().zip(other.keys()) {
-            match l.cmp(r) {
-                Ordering::Equal => {},
-                ord => return ord,
-            }
-        }
-        self.len().cmp(&other.len())
+        cmp_unordered(self.iter(), other.iter())
     }
 }
 
@@ -184,6 +172,15 @@ impl Hash for Prefix<Dict> {
     }
 }
 
+/// Equality of `set` and `dict` does not depend on the insertion order, and so their ordering compares their sorted elements.
+fn cmp_unordered<T : Ord>(left: impl Iterator<Item=T>, right: impl Iterator<Item=T>) -> Ordering {
+    let mut left: Vec<T> = left.collect();
+    let mut right: Vec<T> = right.collect();
+    left.sort();
+    right.sort();
+    left.cmp(&right)
+}
+
 /// Equality of `set` and `dict` does not depend on the insertion order, and so their hash must not either.
 fn hash_unordered<T : Hash, H: Hasher>(it: impl Iterator<Item=T>, state: &mut H) {
     let mut sum: u64 = 0;
-- 
2.43.0


From 68861332029ac05ced6d257ddb1e6bdb8f7696e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:27 +0000
Subject: [PATCH 36/73] fix: order nil and bool consistently with rationals of
 equal value

---
 cordy-sys/src/vm/value/ptr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/value/ptr.rs b/cordy-sys/src/vm/value/ptr.rs
index 0fa0964..e0b2341 100644
--- a/cordy-sys/src/vm/value/ptr.rs
+++ b/cordy-sys/src/vm/value/ptr.rs
@@ -431,8 +431,9 @@ impl Ord for ValuePtr {
                     Type::Rational => {
                         // Comparing rational vs. non-rational integral, so compare the equivalent rational values
                         // Note that we cannot enforce any order on rationals that equal their integral counterparts, as we would
-                        // break the symmetry of Ord + Eq
+                        // break the symmetry of Ord + Eq, so rationals are ordered as integers relative to nil and bool
                         SmallRational::from((lhs, 1)).cmp(other.as_rational())
+                            .then((ty as u8).cmp(&(Type::Int as u8)))
                     }
                     _ => Ordering::Equal,
                 }
-- 
2.43.0


From f0482ee97e9d6b71322eebe6a69454da453cd91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:30 +0000
Subject: [PATCH 37/73] fix: permutations and combinations of zero elements

---
 cordy-sys/src/core/collections.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index ea81f59..b056391 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -310,7 +310,7 @@ pub fn reverse(args: impl Iterator<Item=ValuePtr>) -> ValuePtr {
 
 pub fn permutations(n: ValuePtr, args: ValuePtr) -> ValueResult {
     let n = n.as_int_checked()?;
-    if n <= 0 {
+    if n < 0 {
         return ValueErrorArgMustBeNonNegativeInt(Permutations).err();
     }
     args.to_iter()?
@@ -322,7 +322,7 @@ pub fn permutations(n: ValuePtr, args: ValuePtr) -> ValueResult {
 
 pub fn combinations(n: ValuePtr, args: ValuePtr) -> ValueResult {
     let n = n.as_int_checked()?;
-    if n <= 0 {
+    if n < 0 {
         return ValueErrorArgMustBeNonNegativeInt(Combinations).err();
     }
     args.to_iter()?
-- 
2.43.0


From c2c3036b68ba42d9183ce181e0727e39999a9777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:24 +0000
Subject: [PATCH 38/73] fix: print, vector, min and max may be used as the
 function of a reduce, sort or map

---
 cordy-sys/src/core/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index e33c612..370de73 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -580,8 +580,8 @@ impl InvokeArg1 {
         match f.ty() {
             Type::Function | Type::Closure | Type::PartialFunction | Type::List | Type::Slice | Type::StructType | Type::GetField | Type::Memoized => Ok(InvokeArg1::User(f)),
             Type::NativeFunction => match f.as_native().info().arg {
-                Arg0To1 | Arg1 | Arg1To2 | Arg1To3 | Unique => Ok(InvokeArg1::Native(f.as_native())),
-                Iter | UniqueNonEmpty | IterNonEmpty => Ok(InvokeArg1::NativeVar(f.as_native())),
+                Arg0To1 | Arg1 | Arg1To2 | Arg1To3 | Unique | UniqueNonEmpty => Ok(InvokeArg1::Native(f.as_native())),
+                Iter | IterNonEmpty => Ok(InvokeArg1::NativeVar(f.as_native())),
                 Arg2 => Ok(InvokeArg1::Arg2Par1(f.as_native())),
                 Arg3 => Ok(InvokeArg1::Arg3Par1(f.as_native())),
                 Arg0 => IncorrectArgumentsNativeFunction(f.as_native(), 1).err(),
@@ -618,8 +618,8 @@ impl InvokeArg2 {
         match f.ty() {
             Type::Function | Type::Closure | Type::PartialFunction | Type::List | Type::Slice | Type::StructType | Type::GetField | Type::Memoized => Ok(InvokeArg2::User(f)),
             Type::NativeFunction => match f.as_native().info().arg {
-                Arg1To2 | Arg1To3 | Arg2 | Unique => Ok(InvokeArg2::Native(f.as_native())),
-                Iter | UniqueNonEmpty | IterNonEmpty => Ok(InvokeArg2::NativeVar(f.as_native())),
+                Arg1To2 | Arg1To3 | Arg2 => Ok(InvokeArg2::Native(f.as_native())),
+                Unique | Iter | UniqueNonEmpty | IterNonEmpty => Ok(InvokeArg2::NativeVar(f.as_native())),
                 Arg3 => Ok(InvokeArg2::Arg3Par1(f.as_native())),
                 Arg0 | Arg0To1 | Arg1 => IncorrectArgumentsNativeFunction(f.as_native(), 2).err(),
                 Invalid => ValueIsNotFunctionEvaluable(f).err(),
-- 
2.43.0


From c42a335cd8ffca06d94e33efb264261b61fa47d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 39/73] fix: comparing and hashing values which contain
 themselves terminates

---
 cordy-sys/src/vm/value/collections.rs | 25 +++++++++++----------
 cordy-sys/src/vm/value/ptr.rs         | 31 ++++++++++++++++++++++-----
 2 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/cordy-sys/src/vm/value/collections.rs b/cordy-sys/src/vm/value/collections.rs
index c82ea47..5b16d40 100644
--- a/cordy-sys/src/vm/value/collections.rs
+++ b/cordy-sys/src/vm/value/collections.rs
@@ -8,7 +8,7 @@ use indexmap::{IndexMap, IndexSet};
 
 use crate::core::InvokeArg0;
 use crate::util::{impl_deref, impl_partial_ord};
-use crate::vm::value::ptr::Prefix;
+use crate::vm::value::ptr::{guard_recursion, Prefix};
 use crate::vm::{AnyResult, ValuePtr};
 use crate::vm::RuntimeError::ValueErrorRecursiveHash;
 
@@ -108,11 +108,10 @@ impl Ord for Set {
 /// Note this also applies to `dict()`, although only when used as a key.
 impl Hash for Prefix<Set> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        match self.try_borrow() {
-            Some(it) => {
-                hash_unordered(it.set.iter(), state)
-            },
-            None => FLAG_RECURSIVE_HASH.with(|cell| cell.set(true)),
+        let ret = self.try_borrow()
+            .and_then(|it| guard_recursion(self, self, || hash_unordered(it.set.iter(), state)));
+        if ret.is_none() {
+            set_recursive_hash();
         }
     }
 }
@@ -163,11 +162,10 @@ impl Ord for Dict {
 /// See justification for the unique `Hash` implementation on `Set`
 impl Hash for Prefix<Dict> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        match self.try_borrow() {
-            Some(it) => {
-                hash_unordered(it.dict.iter(), state)
-            },
-            None => FLAG_RECURSIVE_HASH.with(|cell| cell.set(true))
+        let ret = self.try_borrow()
+            .and_then(|it| guard_recursion(self, self, || hash_unordered(it.dict.iter(), state)));
+        if ret.is_none() {
+            set_recursive_hash();
         }
     }
 }
@@ -198,6 +196,11 @@ thread_local! {
     static FLAG_RECURSIVE_HASH: Cell<bool> = Cell::new(false);
 }
 
+/// Indicates that a value was found to contain itself, while it was being hashed.
+pub(super) fn set_recursive_hash() {
+    FLAG_RECURSIVE_HASH.with(|cell| cell.set(true));
+}
+
 /// Returns `true` if a recursive hash error occurred.
 #[inline]
 fn guard_recursive_hash<T, F : FnOnce() -> T>(f: F) -> bool {
diff --git a/cordy-sys/src/vm/value/ptr.rs b/cordy-sys/src/vm/value/ptr.rs
index e0b2341..42444f9 100644
--- a/cordy-sys/src/vm/value/ptr.rs
+++ b/cordy-sys/src/vm/value/ptr.rs
@@ -1,4 +1,4 @@
-use std::cell::{Cell, UnsafeCell};
+use std::cell::{Cell, RefCell, UnsafeCell};
 use std::cmp::Ordering;
 use std::fmt::{Debug, Formatter};
 use std::hash::{Hash, Hasher};
@@ -13,7 +13,7 @@ use crate::core::NativeFunction;
 use crate::util::impl_partial_ord;
 use crate::vm::{Function, Iterable, RuntimeError, StructTypeImpl};
 use crate::vm::value::{*};
-use crate::vm::value::collections::{Heap, Set};
+use crate::vm::value::collections::{Heap, Set, set_recursive_hash};
 use crate::vm::value::slice::Slice;
 
 
@@ -764,13 +764,13 @@ impl<T : ConstValue> Prefix<T> {
 impl<T : Eq + Value> Eq for Prefix<T> {}
 impl<T : Eq + Value> PartialEq for Prefix<T> {
     fn eq(&self, other: &Self) -> bool {
-        *self.borrow() == *other.borrow()
+        std::ptr::eq(self, other) || guard_recursion(self, other, || *self.borrow() == *other.borrow()).unwrap_or(true)
     }
 }
 
 impl<T : Eq + Ord + Value> Ord for Prefix<T> {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.borrow().cmp(&other.borrow())
+        guard_recursion(self, other, || self.borrow().cmp(&other.borrow())).unwrap_or(Ordering::Equal)
     }
 }
 
@@ -782,8 +782,29 @@ impl<T : Eq + Ord + Value> PartialOrd for Prefix<T> {
 
 impl<T : Hash + Value> Hash for Prefix<T> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.borrow().hash(state);
+        if guard_recursion(self, self, || self.borrow().hash(state)).is_none() {
+            set_recursive_hash();
+        }
+    }
+}
+
+
+thread_local! {
+    /// The pairs of values that are currently being compared (or hashed, when identical)
+    static ACTIVE: RefCell<Vec<(usize, usize)>> = const { RefCell::new(Vec::new()) };
+}
+
+/// Mutable values can contain themselves, in which case comparing or hashing them would not terminate.
+/// Returns `None` without evaluating `f` if it is already being evaluated for the same pair of values.
+pub(super) fn guard_recursion<T : Value, R, F : FnOnce() -> R>(left: &Prefix<T>, right: &Prefix<T>, f: F) -> Option<R> {
+    let key = (left as *const Prefix<T> as usize, right as *const Prefix<T> as usize);
+    if ACTIVE.with(|it| it.borrow().contains(&key)) {
+        return None
     }
+    ACTIVE.with(|it| it.borrow_mut().push(key));
+    let ret = f();
+    ACTIVE.with(|it| it.borrow_mut().pop());
+    Some(ret)
 }
 
 impl<T : Debug + Value> Debug for Prefix<T> {
-- 
2.43.0


From 22d20e0acba63928f2bb9ec699f6f2d71bcad74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:36 +0000
Subject: [PATCH 40/73] fix: do not leave a recursive element in a set or dict
 after reporting the error

---
 cordy-sys/src/vm/value/collections.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/vm/value/collections.rs b/cordy-sys/src/vm/value/collections.rs
index 5b16d40..bc60c06 100644
--- a/cordy-sys/src/vm/value/collections.rs
+++ b/cordy-sys/src/vm/value/collections.rs
@@ -77,9 +77,13 @@ impl Set {
     }
 
     pub fn insert_checked(&mut self, value: ValuePtr) -> AnyResult {
+        let len = self.len();
         match guard_recursive_hash(|| self.insert(value)) {
             false => Ok(()),
-            true => ValueErrorRecursiveHash.err()
+            true => {
+                self.truncate(len); // The element was inserted last, remove it again
+                ValueErrorRecursiveHash.err()
+            }
         }
     }
 }
@@ -134,9 +138,13 @@ impl Dict {
     }
 
     pub fn insert_checked(&mut self, key: ValuePtr, value: ValuePtr) -> AnyResult {
+        let len = self.len();
         match guard_recursive_hash(|| self.insert(key, value)) {
             false => Ok(()),
-            true => ValueErrorRecursiveHash.err()
+            true => {
+                self.truncate(len); // The entry was inserted last, remove it again
+                ValueErrorRecursiveHash.err()
+            }
         }
     }
 
-- 
2.43.0


From efd9e7e018387157c658089ea6733902e99d642d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:01 +0000
Subject: [PATCH 41/73] fix: group_by with a size much larger than the iterable

---
 cordy-sys/src/core/collections.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index b056391..2fa33d6 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -270,12 +270,13 @@ pub fn group_by<VM : VirtualInterface>(vm: &mut VM, by: ValuePtr, args: ValuePtr
             }
             let size: usize = i as usize;
             let mut groups: VecDeque<ValuePtr> = VecDeque::with_capacity(1 + iter.len() / size); // Accurate guess
-            let mut group: Vec<ValuePtr> = Vec::with_capacity(size);
+            let capacity: usize = size.min(iter.len()); // As `size` may be arbitrarily larger than the iterator
+            let mut group: Vec<ValuePtr> = Vec::with_capacity(capacity);
             for value in iter {
                 group.push(value);
                 if group.len() == size {
                     groups.push_back(group.to_value());
-                    group = Vec::with_capacity(size);
+                    group = Vec::with_capacity(capacity);
                 }
             }
             if !group.is_empty() {
-- 
2.43.0


From e7e7400e0d65ab95051b0361ab752bd1423e01ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:33 +0000
Subject: [PATCH 42/73] fix: report an error for elementwise operators on a
 vector that contains itself

---
 cordy-sys/src/reporting.rs    |  1 +
 cordy-sys/src/vm/error.rs     |  1 +
 cordy-sys/src/vm/operator.rs  | 24 +++++++++++++++---------
 cordy-sys/src/vm/value/mod.rs |  2 +-
 cordy-sys/src/vm/value/ptr.rs |  2 +-
 5 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index 806d8e0..3d8302c 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -344,6 +344,7 @@ impl AsError for RuntimeError {
             ValueErrorCannotCompileRegex(raw, err) => format!("ValueError: Cannot compile regex '{}'\n            {}", raw, err),
             ValueErrorCannotMatchRegex(raw, err) => format!("ValueError: Cannot match regex '{}'\n            {}", raw, err),
             ValueErrorRecursiveHash => String::from("ValueError: Cannot create recursive hash-based collection"),
+            ValueErrorRecursiveVector => String::from("ValueError: Cannot apply an operator to a vector that contains itself"),
 
             TypeErrorUnaryOp(op, v) => format!("TypeError: Operator unary '{}' is not supported for type {}", op.as_error(), v.as_type_str()),
             TypeErrorBinaryOp(op, l, r) => format!("TypeError: Operator '{}' is not supported for arguments of type {} and {}", op.as_error(), l.as_type_str(), r.as_type_str()),
diff --git a/cordy-sys/src/vm/error.rs b/cordy-sys/src/vm/error.rs
index f1c4b4a..ed05a62 100644
--- a/cordy-sys/src/vm/error.rs
+++ b/cordy-sys/src/vm/error.rs
@@ -52,6 +52,7 @@ pub enum RuntimeError {
     ValueErrorCannotCompileRegex(String, String),
     ValueErrorCannotMatchRegex(String, String),
     ValueErrorRecursiveHash,
+    ValueErrorRecursiveVector,
 
     TypeErrorUnaryOp(UnaryOp, ValuePtr),
     TypeErrorBinaryOp(BinaryOp, ValuePtr, ValuePtr),
diff --git a/cordy-sys/src/vm/operator.rs b/cordy-sys/src/vm/operator.rs
index 8369698..ae0d077 100644
--- a/cordy-sys/src/vm/operator.rs
+++ b/cordy-sys/src/vm/operator.rs
@@ -7,7 +7,7 @@ use crate::core;
 use crate::core::NativeFunction;
 use crate::vm::{ComplexType, ErrorPtr, ErrorResult, Type, ValuePtr, ValueResult};
 use crate::vm::error::RuntimeError;
-use crate::vm::value::{IntoIterableValue, IntoValue};
+use crate::vm::value::{guard_recursion, IntoIterableValue, IntoValue};
 
 use RuntimeError::{*};
 use Type::{*};
@@ -495,36 +495,42 @@ type BinaryFn = fn(ValuePtr, ValuePtr) -> ValueResult;
 
 /// Helpers for `Vector` operations, which all apply elementwise
 pub fn apply_vector_unary(vector: ValuePtr, unary_op: UnaryFn) -> ValueResult {
-    vector.as_vector().borrow().iter()
+    guard_vector(&vector, &vector, || vector.as_vector().borrow().iter()
         .map(|v| unary_op(v.clone()))
         .collect::<Result<Vec<ValuePtr>, ErrorPtr>>()?
         .to_value()
-        .ok()
+        .ok())
 }
 
 fn apply_vector_binary(lhs: ValuePtr, rhs: ValuePtr, binary_op: BinaryFn) -> ValueResult {
-    lhs.as_vector().borrow().iter()
+    guard_vector(&lhs, &rhs, || lhs.as_vector().borrow().iter()
         .zip(rhs.as_vector().borrow().iter())
         .map(|(l, r)| binary_op(l.clone(), r.clone()))
         .collect::<Result<Vec<ValuePtr>, ErrorPtr>>()?
         .to_value()
-        .ok()
+        .ok())
 }
 
 fn apply_vector_binary_scalar_lhs(scalar_lhs: ValuePtr, rhs: ValuePtr, binary_op: BinaryFn) -> ValueResult {
-    rhs.as_vector().borrow().iter()
+    guard_vector(&rhs, &rhs, || rhs.as_vector().borrow().iter()
         .map(|r| binary_op(scalar_lhs.clone(), r.clone()))
         .collect::<ErrorResult<Vec<ValuePtr>>>()?
         .to_value()
-        .ok()
+        .ok())
 }
 
 fn apply_vector_binary_scalar_rhs(lhs: ValuePtr, scalar_rhs: ValuePtr, binary_op: BinaryFn) -> ValueResult {
-    lhs.as_vector().borrow().iter()
+    guard_vector(&lhs, &lhs, || lhs.as_vector().borrow().iter()
         .map(|l| binary_op(l.clone(), scalar_rhs.clone()))
         .collect::<ErrorResult<Vec<ValuePtr>>>()?
         .to_value()
-        .ok()
+        .ok())
+}
+
+/// A vector may contain itself, in which case there is no elementwise result.
+fn guard_vector<F : FnOnce() -> ValueResult>(lhs: &ValuePtr, rhs: &ValuePtr, f: F) -> ValueResult {
+    guard_recursion(lhs.as_vector(), rhs.as_vector(), f)
+        .unwrap_or_else(|| ValueErrorRecursiveVector.err())
 }
 
 
diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index e1114cd..b9378da 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -21,7 +21,7 @@ use crate::vm::value::slice::Slice;
 use crate::vm::value::number::{Complex, Rational};
 use crate::vm::value::collections::{Dict, DictType, Heap, HeapType, List, ListType, Set, SetType, Vector, VectorType};
 
-pub use crate::vm::value::ptr::{MAX_INT, MIN_INT, ValuePtr};
+pub use crate::vm::value::ptr::{guard_recursion, MAX_INT, MIN_INT, ValuePtr};
 pub use crate::vm::value::number::{ComplexType, RationalType};
 pub use crate::vm::value::func::{Closure, Function, PartialFunction, PartialNativeFunction, UpValue};
 pub use crate::vm::value::error::{AnyResult, ErrorPtr, ErrorResult, ValueResult};
diff --git a/cordy-sys/src/vm/value/ptr.rs b/cordy-sys/src/vm/value/ptr.rs
index 42444f9..9ced1c6 100644
--- a/cordy-sys/src/vm/value/ptr.rs
+++ b/cordy-sys/src/vm/value/ptr.rs
@@ -796,7 +796,7 @@ thread_local! {
 
 /// Mutable values can contain themselves, in which case comparing or hashing them would not terminate.
 /// Returns `None` without evaluating `f` if it is already being evaluated for the same pair of values.
-pub(super) fn guard_recursion<T : Value, R, F : FnOnce() -> R>(left: &Prefix<T>, right: &Prefix<T>, f: F) -> Option<R> {
+pub fn guard_recursion<T : Value, R, F : FnOnce() -> R>(left: &Prefix<T>, right: &Prefix<T>, f: F) -> Option<R> {
     let key = (left as *const Prefix<T> as usize, right as *const Prefix<T> as usize);
     if ACTIVE.with(|it| it.borrow().contains(&key)) {
         return None
-- 
2.43.0


From fc5e6d8e89200f3781c45bae5b27e0af37d879d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:29 +0000
Subject: [PATCH 43/73] fix: recover captured variables and uninitialized
 globals after an error in the REPL

---
 cordy-sys/src/compiler/parser/semantic.rs |  8 ++++++++
 cordy-sys/src/repl.rs                     |  2 +-
 cordy-sys/src/vm/mod.rs                   | 18 ++++++++++++++++--
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 23978af..0a99f9c 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -93,6 +93,14 @@ impl Locals {
         self.locals[index].name.clone().to_named()
     }
 
+    /// Forgets the names of all global variables with an index of at least `index`, so they can no longer be referenced.
+    pub fn forget_globals(&mut self, index: usize) {
+        for local in self.locals.iter_mut().skip(index) {
+            local.name = Reference::Named(String::new());
+            local.initialized = true;
+        }
+    }
+
     /// Returns the topmost `Loop` statement on the stack, or `None` if the stack is empty.
     pub(super) fn top_loop(&mut self) -> Option<&mut Loop> {
         self.loops.last_mut()
diff --git a/cordy-sys/src/repl.rs b/cordy-sys/src/repl.rs
index 60c38cb..1d93b0b 100644
--- a/cordy-sys/src/repl.rs
+++ b/cordy-sys/src/repl.rs
@@ -115,7 +115,7 @@ impl<W: Write, F : FunctionInterface> Repl<W, F> {
         }
 
         self.vm.view_mut().push(String::from("<stdin>"), String::new());
-        self.vm.run_recovery(self.locals[0].len());
+        self.vm.run_recovery(&mut self.locals[0]);
         RunResult::Ok
     }
 }
diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index bcc18af..49b7c15 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -226,10 +226,24 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
     }
 
     /// Recovers the VM into an operational state, in case previous instructions terminated in an error or in the middle of a function
-    pub fn run_recovery(&mut self, locals: usize) {
+    ///
+    /// Any global variables which were declared, but not initialized before the error was raised, are removed from `locals`, and can be declared again.
+    pub fn run_recovery(&mut self, locals: &mut Locals) {
+        // Variables in scopes that were left by the error may still be captured
+        let open_upvalues: Vec<usize> = self.open_upvalues.keys().copied().collect();
+        for index in open_upvalues {
+            self.lift_upvalue(index);
+        }
+
+        // The slots of uninitialized globals must stay occupied, as globals are referenced by their index
+        locals.forget_globals(self.global_count);
+
         self.call_stack.truncate(1);
-        self.stack.truncate(locals);
+        self.stack.truncate(self.global_count);
+        self.stack.resize(locals.len(), ValuePtr::nil());
+        self.global_count = locals.len();
         self.literal_stack.clear();
+        self.unroll_stack.clear();
         self.ip = self.code.len();
     }
 
-- 
2.43.0


From d0ad32cf8e90c8a889a720a6448d4a8de952e8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:44 +0000
Subject: [PATCH 44/73] fix: eval of text that does not compile no longer
 breaks later compiles

---
 cordy-sys/src/compiler/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/mod.rs b/cordy-sys/src/compiler/mod.rs
index d0579db..bfadfc6 100644
--- a/cordy-sys/src/compiler/mod.rs
+++ b/cordy-sys/src/compiler/mod.rs
@@ -85,8 +85,15 @@ pub fn incremental_compile(mut params: CompileParameters) -> IncrementalCompileR
 /// This is the API used to run an `eval()` statement.
 pub fn eval_compile(text: String, mut params: CompileParameters) -> AnyResult {
     params.view.push(String::from("<eval>"), text);
-    try_incremental_compile(&mut params, |parser| parser.parse_incremental_eval(), false)
-        .ok_or_runtime_error()
+
+    let state: CompileState = params.save();
+    let ret: IncrementalCompileResult = try_incremental_compile(&mut params, |parser| parser.parse_incremental_eval(), false);
+
+    if !ret.is_success() { // Revert staged changes, so an error doesn't affect later incremental compiles
+        params.restore(state);
+    }
+
+    ret.ok_or_runtime_error()
 }
 
 
-- 
2.43.0


From d6f8296b34d25ed99d51b3d8f93cfe1605c4e4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:09 +0000
Subject: [PATCH 45/73] fix: line numbers and underlines of errors in source
 with non-ASCII text

---
 cordy-sys/src/reporting.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index 3d8302c..302818d 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -201,7 +201,7 @@ impl SourceEntry {
         }
 
         let (start_col, end_col) = if loc.is_empty() {
-            let last_col: usize = index.lines[end_lineno].len();
+            let last_col: usize = index.lines[end_lineno].chars().count();
             (last_col + 1, last_col + 3)
         } else {
             (loc.start - index.starts[start_lineno], loc.end() - index.starts[end_lineno])
@@ -229,7 +229,7 @@ impl SourceEntry {
         } else {
             // For multi-line errors, just point directly up across the entire bottom line
             let longest_line_len: usize = (start_lineno..=end_lineno)
-                .map(|u| index.lines[u].len())
+                .map(|u| index.lines[u].chars().count())
                 .max()
                 .unwrap();
             if longest_line_len > 0 {
@@ -250,7 +250,7 @@ impl SourceEntry {
             for line in self.text.split('\n') {
                 lines.push(String::from(line.strip_suffix('\r').unwrap_or(line)));
                 starts.push(start);
-                start += line.len() + 1;
+                start += line.chars().count() + 1; // Locations are character indices
             }
 
             starts.push(start);
-- 
2.43.0


From 7540434413e4b417c42a678eeebb4460c96328ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:25 +0000
Subject: [PATCH 46/73] fix: errors at the end of input without a trailing
 newline name the last line

---
 cordy-sys/src/compiler/parser/core/mod.rs |  5 +++--
 cordy-sys/src/reporting.rs                | 13 +++++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/core/mod.rs b/cordy-sys/src/compiler/parser/core/mod.rs
index b7c9f3a..e731d61 100644
--- a/cordy-sys/src/compiler/parser/core/mod.rs
+++ b/cordy-sys/src/compiler/parser/core/mod.rs
@@ -350,9 +350,10 @@ impl<'a> Parser<'a> {
         self.last_location.unwrap_or_else(Location::empty)
     }
 
-    /// Returns the source location of the next token, aka the one in `peek()`
+    /// Returns the source location of the next token, aka the one in `peek()`.
+    /// If there are no more tokens, this is an empty location after the previous token.
     pub fn next_location(&self) -> Location {
-        self.input.front().map(|&(loc, _)| loc).unwrap_or_else(Location::empty)
+        self.input.front().map(|&(loc, _)| loc).unwrap_or_else(|| self.prev_location().after())
     }
 
     pub fn synthetic_name(&mut self) -> String {
diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index 302818d..3bbd7bc 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -37,6 +37,11 @@ impl Location {
     /// Returns the end pointer of the location, inclusive
     pub fn end(&self) -> usize { self.start + self.width as usize - 1 }
 
+    /// Returns an empty location, which is positioned right after this one
+    pub fn after(&self) -> Location {
+        Location::new(self.start + self.width as usize, 0, self.index)
+    }
+
     // Returns `true` if the location is empty, i.e. zero width
     pub fn is_empty(&self) -> bool { self.width == 0 }
 }
@@ -158,15 +163,19 @@ impl SourceEntry {
         if loc.is_empty() {
             None
         } else {
-            Some(self.index().starts.partition_point(|u| u <= &loc.start) - 1)
+            Some(self.lineno_of(loc))
         }
     }
 
+    fn lineno_of(&self, loc: Location) -> usize {
+        self.index().starts.partition_point(|u| u <= &loc.start) - 1
+    }
+
     fn format<E : AsErrorWithContext>(&self, view: &SourceView, error: &E) -> String {
         let mut text = error.as_error();
         let index: Ref<'_, SourceIndex> = self.index();
         let loc = error.location();
-        let start_lineno = self.lineno(loc).unwrap_or(0);
+        let start_lineno = self.lineno_of(loc);
         let mut end_lineno = start_lineno;
 
         if !loc.is_empty() {
-- 
2.43.0


From 9c749e038513b9094217a85e81352e2b2866dec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:36 +0000
Subject: [PATCH 47/73] fix: functions no longer capture variables of scopes
 that have ended

---
 cordy-sys/src/compiler/parser/semantic.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 0a99f9c..2ccdb5d 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1195,12 +1195,8 @@ impl<'a> Parser<'a> {
                     // Pop the local
                     self.current_locals_mut().locals.pop().unwrap();
 
-                    // And pop any matching upvalues
-                    if let Some(upvalue) = self.current_locals_mut().upvalues.last() {
-                        if upvalue.index == local_index && upvalue.is_local {
-                            self.current_locals_mut().upvalues.pop().unwrap();
-                        }
-                    }
+                    // And remove the matching upvalue, as functions which are declared later must not capture it
+                    self.current_locals_mut().upvalues.retain(|upvalue| !upvalue.is_local || upvalue.index != local_index);
                 }
             }
         }
-- 
2.43.0


From 202c5110aacc0b496ad62968918108770b923328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:10 +0000
Subject: [PATCH 48/73] fix: 'x is typeof(x)' for ranges, enumerates, memoized
 functions and field accessors

---
 cordy-sys/src/vm/operator.rs  | 2 ++
 cordy-sys/src/vm/value/mod.rs | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/operator.rs b/cordy-sys/src/vm/operator.rs
index ae0d077..0aa117c 100644
--- a/cordy-sys/src/vm/operator.rs
+++ b/cordy-sys/src/vm/operator.rs
@@ -344,6 +344,8 @@ pub fn binary_is(lhs: ValuePtr, rhs: ValuePtr, invert: bool) -> ValueResult {
             NativeFunction::Vector => lhs.is_vector(),
             NativeFunction::Iterable => lhs.is_iterable(),
             NativeFunction::Heap => lhs.is_heap(),
+            NativeFunction::Range => lhs.is_range(),
+            NativeFunction::Enumerate => lhs.ty() == Type::Enumerate,
             NativeFunction::Any => true,
             _ => return TypeErrorBinaryIs(lhs, rhs).err()
         },
diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index b9378da..6a9a1bb 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -122,7 +122,7 @@ impl Type {
     fn is_evaluable(self) -> bool {
         use Type::{*};
         match self {
-            Function | PartialFunction | NativeFunction | PartialNativeFunction | Closure | StructType | Slice => true,
+            Function | PartialFunction | NativeFunction | PartialNativeFunction | Closure | StructType | Slice | Memoized | GetField => true,
             _ => false
         }
     }
-- 
2.43.0


From c96f4db166512ce8feec0b6dbfd24ff518abba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:10 +0000
Subject: [PATCH 49/73] fix: panics when a heap, dict or list used in an
 operation contains or is itself

---
 cordy-sys/src/core/collections.rs | 29 +++++++++++++++++++----------
 cordy-sys/src/vm/mod.rs           | 12 +++++++-----
 cordy-sys/src/vm/value/ptr.rs     |  9 ++++++++-
 3 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 2fa33d6..ca9fed8 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -50,15 +50,16 @@ fn get_dict_index<VM : VirtualInterface>(vm: &mut VM, dict: &ValuePtr, key: Valu
         }
     }
 
-    // Invoke the new value supplier - this might modify the dict
-    // We go through the `.entry()` API again in this case
+    // Invoke the new value supplier - this might modify the dict, so it might now contain the key
     let new_value: ValuePtr = default_factory.invoke(vm)?;
-    let mut dict = dict.borrow_mut();
-
-    dict.entry(key)
-        .or_insert(new_value)
-        .clone()
-        .ok()
+    let existing: Option<ValuePtr> = dict.borrow().get(&key).cloned();
+    match existing {
+        Some(existing_value) => existing_value.ok(),
+        None => {
+            dict.borrow_mut().insert_checked(key, new_value.clone())?;
+            new_value.ok()
+        }
+    }
 }
 
 pub fn set_index(target: &ValuePtr, index: ValuePtr, value: ValuePtr) -> AnyResult {
@@ -454,7 +455,7 @@ pub fn pop(target: ValuePtr) -> ValueResult {
         Type::List => target.as_list().borrow_mut().pop_back(),
         Type::Set => target.as_set().borrow_mut().pop(),
         Type::Dict => target.as_dict().borrow_mut().pop().map(|u| u.to_value()),
-        Type::Heap => target.as_heap().borrow_mut().pop().map(|t| t.0),
+        Type::Heap => with_heap(&target, |heap| heap.pop()).map(|t| t.0),
         _ => return TypeErrorArgMustBeIterable(target).err()
     } {
         Some(v) => v.ok(),
@@ -462,6 +463,14 @@ pub fn pop(target: ValuePtr) -> ValueResult {
     }
 }
 
+/// Modifies the elements of a `heap`. They are taken out while doing so, as comparing them may need to look at the heap itself, if it is contained in one of its elements.
+fn with_heap<T>(target: &ValuePtr, f: impl FnOnce(&mut BinaryHeap<Reverse<ValuePtr>>) -> T) -> T {
+    let mut heap: BinaryHeap<Reverse<ValuePtr>> = std::mem::take(&mut **target.as_heap().borrow_mut());
+    let ret = f(&mut heap);
+    **target.as_heap().borrow_mut() = heap;
+    ret
+}
+
 pub fn pop_front(target: ValuePtr) -> ValueResult {
     match target.as_list_checked()?.borrow_mut().pop_front() {
         Some(v) => v.ok(),
@@ -476,7 +485,7 @@ pub fn push(value: ValuePtr, target: ValuePtr) -> ValueResult {
             Ok(_) => {},
             Err(e) => return ValueResult::from(e),
         }
-        Type::Heap => target.as_heap().borrow_mut().push(Reverse(value)),
+        Type::Heap => with_heap(&target, |heap| heap.push(Reverse(value))),
         _ => return TypeErrorArgMustBeIterable(target).err()
     }
     target.ok()
diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index 49b7c15..cad301d 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -832,11 +832,13 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
                 }
                 let arg = self.pop();
                 let func = self.pop();
-                let list = func.as_list().borrow();
-                if list.len() != 1 {
-                    return ValueErrorEvalListMustHaveUnitLength(list.len()).err()
-                }
-                let index = list[0].clone();
+                let index = {
+                    let list = func.as_list().borrow();
+                    if list.len() != 1 {
+                        return ValueErrorEvalListMustHaveUnitLength(list.len()).err()
+                    }
+                    list[0].clone()
+                };
                 let result = core::get_index(self, &arg, index)?;
                 self.push(result);
                 Ok(FunctionType::Native)
diff --git a/cordy-sys/src/vm/value/ptr.rs b/cordy-sys/src/vm/value/ptr.rs
index 9ced1c6..bb7b72f 100644
--- a/cordy-sys/src/vm/value/ptr.rs
+++ b/cordy-sys/src/vm/value/ptr.rs
@@ -764,7 +764,14 @@ impl<T : ConstValue> Prefix<T> {
 impl<T : Eq + Value> Eq for Prefix<T> {}
 impl<T : Eq + Value> PartialEq for Prefix<T> {
     fn eq(&self, other: &Self) -> bool {
-        std::ptr::eq(self, other) || guard_recursion(self, other, || *self.borrow() == *other.borrow()).unwrap_or(true)
+        std::ptr::eq(self, other) || match (self.try_borrow(), other.try_borrow()) {
+            (Some(left), Some(right)) => guard_recursion(self, other, || *left == *right).unwrap_or(true),
+            _ => {
+                // Either is a collection which is being modified, and is contained in the element being inserted
+                set_recursive_hash();
+                false
+            }
+        }
     }
 }
 
-- 
2.43.0


From 2307365c78cb2b9b91aa9725130b6160fdc9c5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:45 +0000
Subject: [PATCH 50/73] fix: min_by, max_by and sort_by accept memoized
 functions and field accessors

---
 cordy-sys/src/vm/value/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index 6a9a1bb..f75468b 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -403,7 +403,8 @@ impl ValuePtr {
             Type::PartialNativeFunction => Some(self.as_partial_native().min_nargs()),
             Type::Closure => Some(self.as_closure().borrow_func().min_args()),
             Type::StructType => Some(self.as_struct_type().num_fields()),
-            Type::Slice => Some(1),
+            Type::Memoized => self.as_memoized().borrow().func.min_nargs(),
+            Type::Slice | Type::GetField => Some(1),
             _ => None,
         }
     }
-- 
2.43.0


From 10f1603760c3e280b90fa1efb9311388f573c151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:45 +0000
Subject: [PATCH 51/73] fix: union adding a set to itself, and memoized
 functions with arguments that contain them

---
 cordy-sys/src/core/collections.rs |  2 +-
 cordy-sys/src/core/mod.rs         | 10 ++++++----
 cordy-sys/src/vm/value/ptr.rs     |  4 +++-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index ca9fed8..6cf006b 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -659,7 +659,7 @@ pub fn set_union(other: ValuePtr, this: ValuePtr) -> ValueResult {
             let other: Vec<ValuePtr> = other.to_iter()?.collect();
             let mut set = this.as_set().borrow_mut();
             for e in other {
-                set.insert(e);
+                set.insert_checked(e)?;
             }
             drop(set);
             this.ok()
diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index 370de73..e3abc9b 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -1081,11 +1081,13 @@ pub fn invoke_memoized<VM : VirtualInterface>(vm: &mut VM, nargs: u32) -> ValueR
     let ret: ValuePtr = vm.invoke_func(func, &args)?;
 
     // The above computation might've entered a value into the cache - so we have to go through `.entry()` again
-    return memoized.borrow_mut().cache
-        .entry(args)
+    // The cache is taken out while doing so, as the arguments might contain the memoized function itself, which then needs to be hashed
+    let mut cache = std::mem::take(&mut memoized.borrow_mut().cache);
+    let ret: ValuePtr = cache.entry(args)
         .or_insert(ret)
-        .clone()
-        .ok();
+        .clone();
+    memoized.borrow_mut().cache = cache;
+    ret.ok()
 }
 
 
diff --git a/cordy-sys/src/vm/value/ptr.rs b/cordy-sys/src/vm/value/ptr.rs
index bb7b72f..f856c92 100644
--- a/cordy-sys/src/vm/value/ptr.rs
+++ b/cordy-sys/src/vm/value/ptr.rs
@@ -789,7 +789,9 @@ impl<T : Eq + Ord + Value> PartialOrd for Prefix<T> {
 
 impl<T : Hash + Value> Hash for Prefix<T> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        if guard_recursion(self, self, || self.borrow().hash(state)).is_none() {
+        let ret = self.try_borrow()
+            .and_then(|it| guard_recursion(self, self, || it.hash(state)));
+        if ret.is_none() {
             set_recursive_hash();
         }
     }
-- 
2.43.0


From d53cfc1b9ad37e82e6926e4dec065695c3b746bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:22 +0000
Subject: [PATCH 52/73] fix: scan error locations at the very start of a text

---
 cordy-sys/src/compiler/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/scanner.rs b/cordy-sys/src/compiler/scanner.rs
index c8a83e9..f58a5b0 100644
--- a/cordy-sys/src/compiler/scanner.rs
+++ b/cordy-sys/src/compiler/scanner.rs
@@ -537,7 +537,7 @@ impl<'a> Scanner<'a> {
     fn push_err(&mut self, offset: usize, width: usize, error: ScanErrorType) {
         self.errors.push(ScanError {
             error,
-            loc: Location::new(self.cursor - width + offset, width as u32, self.index)
+            loc: Location::new(self.cursor + offset - width, width as u32, self.index)
         });
     }
 
-- 
2.43.0


From 738765ff8f974dcdfcafff75ab4291b045bde81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:29 +0000
Subject: [PATCH 53/73] fix: syntax highlighting of lines that continue
 non-ASCII text

---
 cordy-sys/src/syntax.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/syntax.rs b/cordy-sys/src/syntax.rs
index c70d7a7..26b3ead 100644
--- a/cordy-sys/src/syntax.rs
+++ b/cordy-sys/src/syntax.rs
@@ -43,7 +43,7 @@ pub fn scan<Fmt : Formatter>(input: String, prefix: &String, fmt: &mut Fmt) {
 
     // The index of the next character of `chars` to be consumed
     // We start at the length of the `prefix`, so we don't output anything that occurred before the prefix
-    let mut index = prefix.len();
+    let mut index = prefix.chars().count();
 
     for (loc, ty) in scan {
         if index > loc.end() {
-- 
2.43.0


From ed6220759edda12f181af036685bd91d4601e459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:05 +0000
Subject: [PATCH 54/73] fix: the prompt continues an entry that ends after the
 '(' of a call

---
 cordy-sys/src/compiler/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index c0f4048..8d0aafd 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -1686,7 +1686,10 @@ impl Parser<'_> {
                     match self.peek2() {
                         Some(CloseParen) => expr = expr.call(self.advance_with() | self.advance_with(), vec![]),
                         Some(_) => expr = expr.call_with(self.parse_comma_expr()),
-                        _ => self.error_with(ExpectedCommaOrEndOfArguments),
+                        _ => {
+                            self.advance(); // Consume the `(`, so that the error is at the end of input, not at the `(`
+                            self.error_with(ExpectedCommaOrEndOfArguments)
+                        }
                     }
                 },
                 Some(OpenSquareBracket) => {
-- 
2.43.0


From 74856a856d73ed36f72c305bd7fa12a2b873e1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:31 +0000
Subject: [PATCH 55/73] fix: a return outside of any function ends the program
 instead of panicking

---
 cordy-sys/src/vm/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index cad301d..380f69d 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -321,6 +321,10 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
 
                     let frame: CallFrame = self.call_stack.pop().unwrap(); // Pop the call frame
 
+                    if self.call_stack.is_empty() { // A `return` which is not within any function ends the program
+                        return Ok(())
+                    }
+
                     // A `return` in a loop may be compiled before a local is known to be captured, so any upvalues which are still open have to be lifted here
                     if !self.open_upvalues.is_empty() {
                         for index in frame.frame_pointer..self.stack.len() {
-- 
2.43.0


From 60509820cea642624f41d05bb45b25f6f6a42b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:59 +0000
Subject: [PATCH 56/73] fix: report unrolled values in slice and dict literals,
 instead of panicking

---
 cordy-sys/src/compiler/parser/mod.rs | 33 ++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 8d0aafd..313235f 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -1502,6 +1502,7 @@ impl Parser<'_> {
                 return Expr::list(loc_start | loc_end, vec![arg]);
             },
             Some(Colon) => { // Slice with a first argument
+                let arg = self.check_slice_literal_arg(arg);
                 return self.parse_expr_1_slice_literal(loc_start, arg);
             },
             Some(Comma) => {}, // Don't consume the comma just yet
@@ -1530,7 +1531,7 @@ impl Parser<'_> {
                 let loc_end = self.advance_with();
                 return Expr::slice_literal(loc_start | loc_end, arg1, Expr::nil(), None);
             }
-            _ => self.parse_comma_expr_arg(), // As we consumed `:`, we require a second expression
+            _ => self.parse_slice_literal_arg(), // As we consumed `:`, we require a second expression
         };
 
         // Consumed `[` <expression> `:` <expression> so far
@@ -1552,13 +1553,29 @@ impl Parser<'_> {
         // Consumed `[` <expression> `:` <expression> `:` so far
         let arg3: Expr = match self.peek() {
             Some(CloseSquareBracket) => Expr::nil(),
-            _ => self.parse_comma_expr_arg(),
+            _ => self.parse_slice_literal_arg(),
         };
 
         self.expect(CloseSquareBracket);
         Expr::slice_literal(loc_start | self.prev_location(), arg1, arg2, Some(arg3))
     }
 
+    fn parse_slice_literal_arg(&mut self) -> Expr {
+        let arg = self.parse_comma_expr_arg();
+        self.check_slice_literal_arg(arg)
+    }
+
+    /// The arguments to a slice are single values, so they cannot be unrolled
+    fn check_slice_literal_arg(&mut self, arg: Expr) -> Expr {
+        match arg {
+            Expr(loc, ExprType::Unroll(_)) => {
+                self.semantic_error_at(loc, UnrollNotAllowedInSlice);
+                Expr::nil()
+            },
+            arg => arg
+        }
+    }
+
     /// Parses either a `dict` or `set` literal.
     /// Literals default to being sets, unless a `:` is present in any entry. This means empty literals, and literals with only unrolled terms default to sets.
     fn parse_expr_1_dict_or_set_literal(&mut self) -> Expr {
@@ -1582,14 +1599,14 @@ impl Parser<'_> {
                 match is_dict {
                     Some(true) => {
                         self.expect(Colon);
-                        args.push(self.parse_comma_expr_arg());
+                        args.push(self.parse_dict_literal_value());
                     },
                     Some(false) => {}, // Set does not have any `:` arguments
                     None => { // Still undetermined if it is a dict, or set -> based on this argument we can know definitively
                         is_dict = Some(match self.peek() { // Found a `:`, so we know this is now a dict
                             Some(Colon) => {
                                 self.advance();
-                                args.push(self.parse_comma_expr_arg());
+                                args.push(self.parse_dict_literal_value());
                                 true
                             },
                             _ => false,
@@ -1608,6 +1625,14 @@ impl Parser<'_> {
         if is_dict.unwrap_or(false) { Expr::dict(loc, args) } else { Expr::set(loc, args) }
     }
 
+    /// The value in a dictionary literal is a single value, so unlike the key, it cannot be replaced with an unrolled `...x`
+    fn parse_dict_literal_value(&mut self) -> Expr {
+        match self.peek() {
+            Some(Ellipsis) => self.parse_expr(),
+            _ => self.parse_comma_expr_arg(),
+        }
+    }
+
     fn parse_inline_if_then_else(&mut self) -> Expr {
         trace::trace_parser!("rule <expr-1-inline-if-then-else>");
 
-- 
2.43.0


From 68b02b4194d165cfc37b5ac04e7631c156a7e45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:27 +0000
Subject: [PATCH 57/73] fix: do not reorder operators which may raise an error
 when optimizing

---
 cordy-sys/src/compiler/parser/expr/optimizer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/expr/optimizer.rs b/cordy-sys/src/compiler/parser/expr/optimizer.rs
index 7d1440e..cc29628 100644
--- a/cordy-sys/src/compiler/parser/expr/optimizer.rs
+++ b/cordy-sys/src/compiler/parser/expr/optimizer.rs
@@ -173,10 +173,10 @@ impl Expr {
             ExprType::Nil | ExprType::Bool(_) | ExprType::Int(_) | ExprType::Str(_) | ExprType::NativeFunction(_) | ExprType::Function { .. } => Purity::Strong,
             ExprType::LValue(_) => Purity::Weak,
 
-            ExprType::Unary(_, arg) => arg.purity(),
-            ExprType::Binary(_, lhs, rhs, _) | ExprType::LogicalOr(lhs, rhs) | ExprType::LogicalAnd(lhs, rhs) => lhs.purity().min(rhs.purity()),
+            // Operators may raise errors, so they cannot be reordered with anything that may have side effects, or raise errors itself
+            ExprType::Unary(..) | ExprType::Binary(..) | ExprType::Unroll(_) => Purity::None,
+            ExprType::LogicalOr(lhs, rhs) | ExprType::LogicalAnd(lhs, rhs) => lhs.purity().min(rhs.purity()),
             ExprType::Literal(_, args) => args.iter().map(|u| u.purity()).min().unwrap_or(Purity::Strong),
-            ExprType::Unroll(arg) => arg.purity(),
             ExprType::IfThenElse(condition, if_true, if_false) => condition.purity().min(if_true.purity()).min(if_false.purity()),
 
             ExprType::Call { unroll: true, .. } => Purity::None,
-- 
2.43.0


From d87dbf62a83d114ed17ab8e3099b7fa06a4264a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 58/73] fix: slices check their arguments in the same order
 with and without optimization

---
 cordy-sys/src/core/collections.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 6cf006b..7625384 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -82,26 +82,30 @@ pub fn set_index(target: &ValuePtr, index: ValuePtr, value: ValuePtr) -> AnyResu
 pub fn get_slice(target: &ValuePtr, low: ValuePtr, high: ValuePtr, step: ValuePtr) -> ValueResult {
 
     #[inline]
-    fn unwrap_or(ptr: ValuePtr, default: i64) -> ErrorResult<i64> {
+    fn to_int(ptr: ValuePtr) -> ErrorResult<Option<i64>> {
         if ptr.is_int() {
-            Ok(ptr.as_int())
+            Ok(Some(ptr.as_int()))
         } else if ptr.is_nil() {
-            Ok(default)
+            Ok(None)
         } else {
             TypeErrorArgMustBeInt(ptr).err()
         }
     }
 
+    // The arguments are checked first, and in order, as they are when creating a slice literal
+    let low: Option<i64> = to_int(low)?;
+    let high: Option<i64> = to_int(high)?;
+    let step: i64 = to_int(step)?.unwrap_or(1);
+
     let mut slice = target.to_slice()?;
     let length: i64 = slice.len() as i64;
 
-    let step: i64 = unwrap_or(step, 1)?;
     if step == 0 {
         return ValueErrorStepCannotBeZero.err()
     }
 
-    let low: i64 = unwrap_or(low, if step > 0 { 0 } else { -1 })?;
-    let high: i64 = unwrap_or(high, if step > 0 { length } else { -length - 1 })?;
+    let low: i64 = low.unwrap_or(if step > 0 { 0 } else { -1 });
+    let high: i64 = high.unwrap_or(if step > 0 { length } else { -length - 1 });
 
     // Bounds outside the collection are clamped, in the direction of the slice
     let (min, max): (i64, i64) = if step > 0 { (0, length) } else { (-1, length - 1) };
-- 
2.43.0


From f88925ad688e4fd1dd3f26a691ff015844ba2756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:13 +0000
Subject: [PATCH 59/73] fix: errors of min and max point at their arguments
 when optimizing

---
 cordy-sys/src/compiler/parser/expr/optimizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/expr/optimizer.rs b/cordy-sys/src/compiler/parser/expr/optimizer.rs
index cc29628..b900421 100644
--- a/cordy-sys/src/compiler/parser/expr/optimizer.rs
+++ b/cordy-sys/src/compiler/parser/expr/optimizer.rs
@@ -65,7 +65,7 @@ impl Visitor for Optimizer {
                     },
 
                     // This is a special case, for `min(int)` and `max(int)`, we can replace this with a compile time constant
-                    Expr(loc, ExprType::NativeFunction(native_f @ (NativeFunction::Min | NativeFunction::Max))) if nargs == Some(1) => {
+                    Expr(_, ExprType::NativeFunction(native_f @ (NativeFunction::Min | NativeFunction::Max))) if nargs == Some(1) => {
                         if let Expr(_, ExprType::NativeFunction(NativeFunction::Int)) = args[0] {
                             Expr::int(loc, if native_f == NativeFunction::Min { ValuePtr::MIN_INT } else { ValuePtr::MAX_INT })
                         } else {
-- 
2.43.0


From 2c49ca492118a50d9997fd8cd1fbe1c2b320488c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:12 +0000
Subject: [PATCH 60/73] fix: do not reorder reads of two late bound variables
 when optimizing

---
 cordy-sys/src/compiler/parser/expr/optimizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/expr/optimizer.rs b/cordy-sys/src/compiler/parser/expr/optimizer.rs
index b900421..476ce54 100644
--- a/cordy-sys/src/compiler/parser/expr/optimizer.rs
+++ b/cordy-sys/src/compiler/parser/expr/optimizer.rs
@@ -1,4 +1,5 @@
 use crate::compiler::parser::{Expr, ExprType, Parser, Traversable, Visitor};
+use crate::compiler::parser::semantic::LValueReference;
 use crate::core::NativeFunction;
 use crate::vm::{ErrorPtr, IntoValue, LiteralType, RuntimeError, ValuePtr};
 
@@ -164,6 +165,7 @@ impl Expr {
         match self.purity() {
             Purity::Strong => true,
             Purity::Weak => other.purity() != Purity::None,
+            Purity::Late => other.purity() >= Purity::Weak,
             Purity::None => other.purity() == Purity::Strong,
         }
     }
@@ -171,6 +173,8 @@ impl Expr {
     fn purity(&self) -> Purity {
         match &self.1 {
             ExprType::Nil | ExprType::Bool(_) | ExprType::Int(_) | ExprType::Str(_) | ExprType::NativeFunction(_) | ExprType::Function { .. } => Purity::Strong,
+            // Reading a late binding may raise an error if it has not been declared yet, so two of them cannot be reordered
+            ExprType::LValue(LValueReference::LateBinding(_)) => Purity::Late,
             ExprType::LValue(_) => Purity::Weak,
 
             // Operators may raise errors, so they cannot be reordered with anything that may have side effects, or raise errors itself
@@ -216,5 +220,5 @@ fn is_native_operator(expr: &Expr) -> bool {
 
 #[derive(Debug, Copy, Clone, Ord, PartialOrd, PartialEq, Eq)]
 enum Purity {
-    None, Weak, Strong
+    None, Late, Weak, Strong
 }
\ No newline at end of file
-- 
2.43.0


From 8919800c5e6f85c1f0f56dfde1f235d148c5f055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:06 +0000
Subject: [PATCH 61/73] fix: error locations of tokens on a new line point at
 the token and not at the line break

---
 cordy-sys/src/compiler/parser/core/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/core/mod.rs b/cordy-sys/src/compiler/parser/core/mod.rs
index e731d61..638cfd5 100644
--- a/cordy-sys/src/compiler/parser/core/mod.rs
+++ b/cordy-sys/src/compiler/parser/core/mod.rs
@@ -353,7 +353,10 @@ impl<'a> Parser<'a> {
     /// Returns the source location of the next token, aka the one in `peek()`.
     /// If there are no more tokens, this is an empty location after the previous token.
     pub fn next_location(&self) -> Location {
-        self.input.front().map(|&(loc, _)| loc).unwrap_or_else(|| self.prev_location().after())
+        self.input.iter()
+            .find(|(_, token)| token != &NewLine)
+            .map(|&(loc, _)| loc)
+            .unwrap_or_else(|| self.prev_location().after())
     }
 
     pub fn synthetic_name(&mut self) -> String {
-- 
2.43.0


From d5ad0a513011d1b174be025488c5faaad94e07fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:14 +0000
Subject: [PATCH 62/73] fix: report invalid UTF-8 on stdin as an IOError in
 read() and read_line() instead of a panic

---
 cordy-sys/src/core/mod.rs | 10 ++++++++--
 cordy-sys/src/vm/mod.rs   | 18 +++++++++---------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index e3abc9b..48b9a0d 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -826,8 +826,14 @@ pub fn invoke_partial<VM : VirtualInterface>(f: &PartialNativeFunction, nargs: u
 
 fn invoke_arg0<VM : VirtualInterface>(f: NativeFunction, vm: &mut VM) -> ValueResult {
     match f {
-        Read => vm.read().to_value().ok(),
-        ReadLine => vm.read_line().to_value().ok(),
+        Read => match vm.read() {
+            Ok(text) => text.to_value().ok(),
+            Err(err) => IOError(err.to_string()).err(),
+        },
+        ReadLine => match vm.read_line() {
+            Ok(line) => line.to_value().ok(),
+            Err(err) => IOError(err.to_string()).err(),
+        },
         Print => {
             vm.println0();
             ValuePtr::nil().ok()
diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index 380f69d..9403bd1 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -1,6 +1,6 @@
 use std::cell::Cell;
 use std::collections::HashMap;
-use std::io::{BufRead, Write};
+use std::io::{self, BufRead, Write};
 use std::rc::Rc;
 use fxhash::FxBuildHasher;
 
@@ -121,8 +121,8 @@ pub trait VirtualInterface {
     fn println(&mut self, str: &str);
     fn print(&mut self, str: &str);
 
-    fn read_line(&mut self) -> String;
-    fn read(&mut self) -> String;
+    fn read_line(&mut self) -> io::Result<String>;
+    fn read(&mut self) -> io::Result<String>;
 
     fn get_envs(&self) -> ValuePtr;
     fn get_env(&self, name: &str) -> ValuePtr;
@@ -998,17 +998,17 @@ impl <R : BufRead, W : Write, F : FunctionInterface> VirtualInterface for Virtua
     fn println(&mut self, str: &str) { writeln!(&mut self.write, "{}", str).unwrap(); }
     fn print(&mut self, str: &str) { write!(&mut self.write, "{}", str).unwrap(); }
 
-    fn read_line(&mut self) -> String {
+    fn read_line(&mut self) -> io::Result<String> {
         let mut buf = String::new();
-        self.read.read_line(&mut buf).unwrap();
+        self.read.read_line(&mut buf)?;
         util::strip_line_ending(&mut buf);
-        buf
+        Ok(buf)
     }
 
-    fn read(&mut self) -> String {
+    fn read(&mut self) -> io::Result<String> {
         let mut buf = String::new();
-        self.read.read_to_string(&mut buf).unwrap();
-        buf
+        self.read.read_to_string(&mut buf)?;
+        Ok(buf)
     }
 
     fn get_envs(&self) -> ValuePtr {
-- 
2.43.0


From 5fd21c41f516c8df041d4785cb06c980128cbaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:15 +0000
Subject: [PATCH 63/73] fix: read() and read_text() replace \r\n with \n, and
 keep other \r

---
 cordy-sys/src/core/mod.rs | 2 +-
 cordy-sys/src/vm/mod.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index 48b9a0d..618d15e 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -860,7 +860,7 @@ fn invoke_arg1<VM : VirtualInterface>(f: NativeFunction, a1: ValuePtr, vm: &mut
         ReadText => {
             let path = a1.as_str_checked()?;
             match fs::read_to_string::<&str>(path) {
-                Ok(text) => text.replace('\r', "").to_value().ok(),
+                Ok(text) => text.replace("\r\n", "\n").to_value().ok(),
                 Err(err) => IOError(err.to_string()).err(),
             }
         },
diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index 9403bd1..06be91e 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -1008,7 +1008,7 @@ impl <R : BufRead, W : Write, F : FunctionInterface> VirtualInterface for Virtua
     fn read(&mut self) -> io::Result<String> {
         let mut buf = String::new();
         self.read.read_to_string(&mut buf)?;
-        Ok(buf)
+        Ok(buf.replace("\r\n", "\n"))
     }
 
     fn get_envs(&self) -> ValuePtr {
-- 
2.43.0


From afe3fede93f7a9eddf16788770772e7b05777ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:16 +0000
Subject: [PATCH 64/73] fix: env() panicked when an environment variable was
 not valid unicode

---
 cordy-sys/src/vm/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index 06be91e..15be9e3 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -1012,7 +1012,10 @@ impl <R : BufRead, W : Write, F : FunctionInterface> VirtualInterface for Virtua
     }
 
     fn get_envs(&self) -> ValuePtr {
-        std::env::vars().map(|(k, v)| (k.to_value(), v.to_value())).to_dict()
+        // Variables which are not valid unicode cannot be represented, and `env(name)` returns `nil` for them
+        std::env::vars_os()
+            .filter_map(|(k, v)| Some((k.into_string().ok()?.to_value(), v.into_string().ok()?.to_value())))
+            .to_dict()
     }
 
     fn get_env(&self, name: &str) -> ValuePtr {
-- 
2.43.0


From 403f111f2cc7f46ccecbba216ee1806662a6762c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:16 +0000
Subject: [PATCH 65/73] fix: the command line tool panicked when an argument
 was not valid unicode

---
 cordy/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cordy/src/main.rs b/cordy/src/main.rs
index e50c7a4..c09d4bd 100644
--- a/cordy/src/main.rs
+++ b/cordy/src/main.rs
@@ -54,8 +54,10 @@ const FORMAT_COLORS: &str = "\
 
 
 fn main() {
-    let args: Vec<String> = std::env::args().collect();
-    let mut options: Options = match parse_args(args) {
+    let args: Result<Vec<String>, String> = std::env::args_os()
+        .map(|arg| arg.into_string().map_err(|e| format!("Argument is not valid unicode: {:?}", e)))
+        .collect();
+    let mut options: Options = match args.and_then(parse_args) {
         Ok(args) => args,
         Err(err) => {
             eprintln!("{}", err);
-- 
2.43.0


From d0a81f1da261266d54e817c4f0d394d3b6087437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:03 +0000
Subject: [PATCH 66/73] fix: AS_BOOL(bool x, ..) did not compile in C, where
 bool is a macro

---
 cordy/cordy.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cordy/cordy.h b/cordy/cordy.h
index 8a470a9..7427f89 100644
--- a/cordy/cordy.h
+++ b/cordy/cordy.h
@@ -162,6 +162,7 @@ do {                                                \
 #define _DECL_cordy_value_t _DECL_
 #define _DECL_cordy_vec_t _DECL_
 #define _DECL_bool _DECL_
+#define _DECL__Bool _DECL_ // In C, `bool` is a macro for `_Bool`, and is expanded before it gets here
 #define _DECL_int64_t _DECL_
 #define _DECL_str_t _DECL_
 
-- 
2.43.0


From f78ac14f603ae0f523838bbaf43b4fa95eddd9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:03 +0000
Subject: [PATCH 67/73] fix: the ERR() macro expanded to a call of an
 undeclared function

---
 cordy/cordy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy/cordy.h b/cordy/cordy.h
index 7427f89..e2a8c45 100644
--- a/cordy/cordy.h
+++ b/cordy/cordy.h
@@ -82,7 +82,7 @@ typedef struct cordy_value_s {
 #define _VALUE(type, value_field, value) ((cordy_value_t) { .ty = type, .value_field = value })
 
 // Macros that construct a new cordy_value_t
-#define ERR(x) ERR(#x)
+#define ERR(x) _ERR(#x)
 #define _ERR(x) _VALUE(TY_ERR, str_value, x)
 #define NIL() _VALUE(TY_NIL, int_value, 0)
 #define BOOL(x) _VALUE(TY_BOOL, bool_value, x)
-- 
2.43.0


From 8425efe5f5236f612031f585a22153e0b51d1b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:05 +0000
Subject: [PATCH 68/73] fix: all native modules were equal, so the second one
 of a program was replaced by the first

---
 cordy-sys/src/vm/value/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index f75468b..3042734 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -801,13 +801,14 @@ impl StructTypeImpl {
 
 impl PartialEq for StructTypeImpl {
     fn eq(&self, other: &Self) -> bool {
-        self.instance_type == other.instance_type
+        // Compare the constructor type, as native modules have no (and so they all share the same) instance type
+        self.constructor_type == other.constructor_type
     }
 }
 
 impl Hash for StructTypeImpl {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.instance_type.hash(state);
+        self.constructor_type.hash(state);
     }
 }
 
-- 
2.43.0


From 8031077bc343d82e5ac431c987a3c78a22f1cb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:07 +0000
Subject: [PATCH 69/73] fix: a bool returned by a native function was read from
 eight bytes, of which C sets one

---
 cordy/src/ffi.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cordy/src/ffi.rs b/cordy/src/ffi.rs
index 48c256d..5cdb7d9 100644
--- a/cordy/src/ffi.rs
+++ b/cordy/src/ffi.rs
@@ -37,6 +37,8 @@ struct CordyValueArray {
 
 #[repr(C)]
 union CordyValueUnion {
+    /// Only one byte is written by C for a `bool`, so only that may be read
+    bool: u8,
     int: i64,
     str: *const c_char,
     vec: CordyValueArray
@@ -174,7 +176,7 @@ fn from_value(value: CordyValue) -> ValueResult {
                 }.err()
             }
             CordyType::Nil => ValuePtr::nil().ok(),
-            CordyType::Bool => (value.value.int != 0).to_value().ok(),
+            CordyType::Bool => (value.value.bool != 0).to_value().ok(),
             CordyType::Int => value.value.int.to_value().ok(),
             CordyType::Str => {
                 // Strings are passed and give ownership to Cordy
-- 
2.43.0


From 1576b35136b7e0ebe53ac6eccb282d01ff85c6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:07 +0000
Subject: [PATCH 70/73] fix: the functions given to native libraries did not
 have the C calling convention

---
 cordy/src/ffi.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cordy/src/ffi.rs b/cordy/src/ffi.rs
index 5cdb7d9..66ec72d 100644
--- a/cordy/src/ffi.rs
+++ b/cordy/src/ffi.rs
@@ -205,7 +205,7 @@ fn from_value(value: CordyValue) -> ValueResult {
 /// Note that there are several invariants that **must** be checked by the caller, as errors are not handled:
 /// - The string provided must be valid UTF-8
 /// - Any allocations or null-byte issues must resolve
-fn cordy_api_str(str: *const c_char) -> CordyValue {
+extern "C" fn cordy_api_str(str: *const c_char) -> CordyValue {
     unsafe {
         let str = CStr::from_ptr(str).to_str().unwrap();
         let c_str = CString::new(str.as_bytes()).unwrap();
@@ -214,14 +214,14 @@ fn cordy_api_str(str: *const c_char) -> CordyValue {
     }
 }
 
-fn cordy_api_vec(capacity: usize) -> CordyValue {
+extern "C" fn cordy_api_vec(capacity: usize) -> CordyValue {
     let vec = Vec::with_capacity(capacity);
     let (ptr, len, capacity) = vec.into_raw_parts();
     CordyValue { ty: CordyType::Array, value: CordyValueUnion { vec: CordyValueArray { ptr, len, capacity } }}
 }
 
 /// Frees a `cordy_value_t`. The value should not be used after this.
-fn cordy_api_free(value: CordyValue) {
+extern "C" fn cordy_api_free(value: CordyValue) {
     match value.ty {
         CordyType::Str => {
             unsafe {
-- 
2.43.0


From 2c1cb6506a50232d2f1332c7c0843969508ffd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:55 +0000
Subject: [PATCH 71/73] fix: repeating a str or list beyond any length that
 fits in memory panicked

---
 cordy-sys/src/vm/operator.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/operator.rs b/cordy-sys/src/vm/operator.rs
index 0aa117c..c7fb4fe 100644
--- a/cordy-sys/src/vm/operator.rs
+++ b/cordy-sys/src/vm/operator.rs
@@ -160,6 +160,7 @@ fn binary_str_repeat(string: ValuePtr, repeat: ValuePtr) -> ValueResult {
     if i < 0 {
         ValueErrorBinaryOpMustNotBeNegative(string, BinaryOp::Mul, i).err()
     } else {
+        repeat_len::<u8>(string.as_str_slice().len(), i)?;
         string.as_str_slice().repeat(i as usize).to_value().ok()
     }
 }
@@ -172,7 +173,7 @@ fn binary_list_repeat(list: ValuePtr, repeat: ValuePtr, deep: bool) -> ValueResu
         let list = list.as_list().borrow();
         let iter = list.iter()
             .cycle()
-            .take(i as usize * list.len())
+            .take(repeat_len::<ValuePtr>(list.len(), i)?)
             .cloned();
 
         match deep {
@@ -182,6 +183,14 @@ fn binary_list_repeat(list: ValuePtr, repeat: ValuePtr, deep: bool) -> ValueResu
     }
 }
 
+/// Returns the length of a sequence of `len` elements of type `T`, repeated `n >= 0` times, or an error if no sequence can be that long
+fn repeat_len<T>(len: usize, n: i64) -> ErrorResult<usize> {
+    match len.checked_mul(n as usize) {
+        Some(len) if Vec::<T>::new().try_reserve_exact(len).is_ok() => Ok(len),
+        _ => ValueErrorValueWouldBeTooLarge.err()
+    }
+}
+
 pub fn binary_div(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
     match (lhs.ty(), rhs.ty()) {
         (Bool | Int, Bool | Int) => {
-- 
2.43.0


From af9e0132b4cc3df2fbb4c9ff3cdc4002ee7ebc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:54 +0000
Subject: [PATCH 72/73] fix: the length of a range was taken as the space the
 result of an operation on it needs

---
 cordy-sys/src/core/collections.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 7625384..127734e 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -264,6 +264,13 @@ fn non_empty(it: Option<ValuePtr>, f: NativeFunction) -> ValueResult {
 }
 
 
+/// The length of an iterable is only a guess at how much space the result of an operation on it needs: a `range()` may be longer than
+/// anything that fits in memory, and still be left early by an error. Larger results than this grow as they are filled.
+#[inline]
+fn guess_capacity(len: usize) -> usize {
+    len.min(1 << 12)
+}
+
 pub fn group_by<VM : VirtualInterface>(vm: &mut VM, by: ValuePtr, args: ValuePtr) -> ValueResult {
     let iter = args.to_iter()?;
     match by.is_int() {
@@ -274,8 +281,8 @@ pub fn group_by<VM : VirtualInterface>(vm: &mut VM, by: ValuePtr, args: ValuePtr
                 return ValueErrorValueMustBePositive(i).err()
             }
             let size: usize = i as usize;
-            let mut groups: VecDeque<ValuePtr> = VecDeque::with_capacity(1 + iter.len() / size); // Accurate guess
-            let capacity: usize = size.min(iter.len()); // As `size` may be arbitrarily larger than the iterator
+            let mut groups: VecDeque<ValuePtr> = VecDeque::with_capacity(guess_capacity(1 + iter.len() / size)); // Accurate guess
+            let capacity: usize = guess_capacity(size.min(iter.len())); // As `size` may be arbitrarily larger than the iterator
             let mut group: Vec<ValuePtr> = Vec::with_capacity(capacity);
             for value in iter {
                 group.push(value);
@@ -293,12 +300,12 @@ pub fn group_by<VM : VirtualInterface>(vm: &mut VM, by: ValuePtr, args: ValuePtr
             // Otherwise, we assume this is a group_by(f), in which case we assume the function to be a item -> key, and create a dictionary of keys -> vector of values
             // For capacity, we guess that we're halving. That seems to be a reasonable compromise between overestimating, and optimal values.
             let size = iter.len();
-            let mut groups: IndexMap<ValuePtr, ValuePtr, FxBuildHasher> = IndexMap::with_capacity_and_hasher(size / 2, FxBuildHasher::default());
+            let mut groups: IndexMap<ValuePtr, ValuePtr, FxBuildHasher> = IndexMap::with_capacity_and_hasher(guess_capacity(size / 2), FxBuildHasher::default());
             let by: InvokeArg1 = InvokeArg1::from(by)?;
             for value in iter {
                 let key = by.invoke(value.clone(), vm)?;
                 groups.entry(key)
-                    .or_insert_with(|| Vec::with_capacity(size / 4).to_value()) // Rough guess
+                    .or_insert_with(|| Vec::new().to_value()) // There may be as many groups as elements, so guess nothing
                     .as_vector() // This is safe because we should only have vectors in the map
                     .borrow_mut()
                     .push(value);
@@ -362,7 +369,7 @@ fn predicate<VM : VirtualInterface>(vm: &mut VM, f: ValuePtr, args: ValuePtr, is
 
 pub fn map<VM: VirtualInterface>(vm: &mut VM, f: ValuePtr, args: ValuePtr) -> ValueResult {
     let len: usize = args.len().unwrap_or(0);
-    let mut acc: VecDeque<ValuePtr> = VecDeque::with_capacity(len);
+    let mut acc: VecDeque<ValuePtr> = VecDeque::with_capacity(guess_capacity(len));
     let f: InvokeArg1 = InvokeArg1::from(f)?;
     for r in args.to_iter()? {
         acc.push_back(f.invoke(r, vm)?);
@@ -372,7 +379,7 @@ pub fn map<VM: VirtualInterface>(vm: &mut VM, f: ValuePtr, args: ValuePtr) -> Va
 
 pub fn filter<VM: VirtualInterface>(vm: &mut VM, f: ValuePtr, args: ValuePtr) -> ValueResult {
     let len: usize = args.len().unwrap_or(0);
-    let mut acc: VecDeque<ValuePtr> = VecDeque::with_capacity(len);
+    let mut acc: VecDeque<ValuePtr> = VecDeque::with_capacity(guess_capacity(len));
     let f: InvokeArg1 = InvokeArg1::from(f)?;
     for r in args.to_iter()? {
         let ret = f.invoke(r.clone(), vm)?;
@@ -385,7 +392,7 @@ pub fn filter<VM: VirtualInterface>(vm: &mut VM, f: ValuePtr, args: ValuePtr) ->
 
 pub fn flat_map<VM>(vm: &mut VM, f: Option<ValuePtr>, args: ValuePtr) -> ValueResult where VM : VirtualInterface {
     let len: usize = args.len().unwrap_or(0);
-    let mut acc: VecDeque<ValuePtr> = VecDeque::with_capacity(len);
+    let mut acc: VecDeque<ValuePtr> = VecDeque::with_capacity(guess_capacity(len));
     let f: Option<InvokeArg1> = match f {
         Some(f) => Some(InvokeArg1::from(f)?),
         None => None,
@@ -413,7 +420,7 @@ pub fn zip(args: impl Iterator<Item=ValuePtr>) -> ValueResult {
         .map(|u| u.len())
         .min()
         .unwrap_or(0);
-    let mut acc = VecDeque::with_capacity(size);
+    let mut acc = VecDeque::with_capacity(guess_capacity(size));
     loop {
         let mut vec = Vec::with_capacity(iters.len());
         for iter in &mut iters {
@@ -704,7 +711,7 @@ pub fn set_difference(other: ValuePtr, this: ValuePtr) -> ValueResult {
 
 pub fn counter(it: ValuePtr) -> ValueResult {
     let iter = it.to_iter()?;
-    let mut counter: IndexMap<ValuePtr, ValuePtr, FxBuildHasher> = IndexMap::with_capacity_and_hasher(iter.len(), FxBuildHasher::default());
+    let mut counter: IndexMap<ValuePtr, ValuePtr, FxBuildHasher> = IndexMap::with_capacity_and_hasher(guess_capacity(iter.len()), FxBuildHasher::default());
     for elem in iter {
         counter.entry(elem)
             .and_modify(|e| {
-- 
2.43.0


From 6f8c0243fb0c47d264050b82ddf43c7817abd24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:53 +0000
Subject: [PATCH 73/73] fix: combinations() of more elements than there are
 allocated space for all of them

---
 cordy-sys/src/core/collections.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 127734e..5163d07 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -338,8 +338,11 @@ pub fn combinations(n: ValuePtr, args: ValuePtr) -> ValueResult {
     if n < 0 {
         return ValueErrorArgMustBeNonNegativeInt(Combinations).err();
     }
-    args.to_iter()?
-        .combinations(n as usize)
+    let iter = args.to_iter()?;
+    if n as usize > iter.len() { // There are none, and `.combinations(n)` would allocate `n` indices to find that out
+        return VecDeque::<ValuePtr>::new().to_value().ok();
+    }
+    iter.combinations(n as usize)
         .map(|u| u.to_value())
         .to_list()
         .ok()
-- 
2.43.0

