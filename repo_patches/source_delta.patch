From 0c49b2e8fbb53db0db3a6f03c8d3891077344f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 01/32] fix: call min and max with a single argument the same
 way from other built-ins as directly

---
 cordy-sys/src/core/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index 1d554a5..5abbf46 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -580,8 +580,8 @@ impl InvokeArg1 {
         match f.ty() {
             Type::Function | Type::Closure | Type::PartialFunction | Type::List | Type::Slice | Type::StructType | Type::GetField | Type::Memoized => Ok(InvokeArg1::User(f)),
             Type::NativeFunction => match f.as_native().info().arg {
-                Arg0To1 | Arg1 | Arg1To2 | Arg1To3 | Unique => Ok(InvokeArg1::Native(f.as_native())),
-                Iter | UniqueNonEmpty | IterNonEmpty => Ok(InvokeArg1::NativeVar(f.as_native())),
+                Arg0To1 | Arg1 | Arg1To2 | Arg1To3 | Unique | UniqueNonEmpty => Ok(InvokeArg1::Native(f.as_native())),
+                Iter | IterNonEmpty => Ok(InvokeArg1::NativeVar(f.as_native())),
                 Arg2 => Ok(InvokeArg1::Arg2Par1(f.as_native())),
                 Arg3 => Ok(InvokeArg1::Arg3Par1(f.as_native())),
                 Arg0 => IncorrectArgumentsNativeFunction(f.as_native(), 1).err(),
-- 
2.43.0


From 48a72dfdf8ac9c78cb43c3fab9f09ada4bc103e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 02/32] fix: dispatch print and vector with two arguments from
 another built-in, instead of panicking

---
 cordy-sys/src/core/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index 5abbf46..07486e7 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -618,8 +618,8 @@ impl InvokeArg2 {
         match f.ty() {
             Type::Function | Type::Closure | Type::PartialFunction | Type::List | Type::Slice | Type::StructType | Type::GetField | Type::Memoized => Ok(InvokeArg2::User(f)),
             Type::NativeFunction => match f.as_native().info().arg {
-                Arg1To2 | Arg1To3 | Arg2 | Unique => Ok(InvokeArg2::Native(f.as_native())),
-                Iter | UniqueNonEmpty | IterNonEmpty => Ok(InvokeArg2::NativeVar(f.as_native())),
+                Arg1To2 | Arg1To3 | Arg2 => Ok(InvokeArg2::Native(f.as_native())),
+                Iter | Unique | UniqueNonEmpty | IterNonEmpty => Ok(InvokeArg2::NativeVar(f.as_native())),
                 Arg3 => Ok(InvokeArg2::Arg3Par1(f.as_native())),
                 Arg0 | Arg0To1 | Arg1 => IncorrectArgumentsNativeFunction(f.as_native(), 2).err(),
                 Invalid => ValueIsNotFunctionEvaluable(f).err(),
-- 
2.43.0


From 4e24471d869498211571bdc847e0b7e15e6a0b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 03/32] fix: report four arguments when a built-in passes two
 more to a partial holding two

---
 cordy-sys/src/core/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index 07486e7..60a48f9 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -627,8 +627,8 @@ impl InvokeArg2 {
             Type::PartialNativeFunction => {
                 let (f, partial) = f.as_partial_native().consume();
                 match partial {
-                    PartialArgument::Arg2Par1(_) |
-                    PartialArgument::Arg3Par2(_, _) => IncorrectArgumentsNativeFunction(f, 3).err(),
+                    PartialArgument::Arg2Par1(_) => IncorrectArgumentsNativeFunction(f, 3).err(),
+                    PartialArgument::Arg3Par2(_, _) => IncorrectArgumentsNativeFunction(f, 4).err(),
                     PartialArgument::Arg3Par1(arg) => Ok(InvokeArg2::NativePar1(f, arg)),
                 }
             },
-- 
2.43.0


From faa62c3b0e6c5f0a558b065feadce3417cf6b849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 04/32] fix: constant folding of swapped binary operators
 exchanged their operands

---
 cordy-sys/src/compiler/parser/expr/optimizer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/expr/optimizer.rs b/cordy-sys/src/compiler/parser/expr/optimizer.rs
index 448eed5..6acf896 100644
--- a/cordy-sys/src/compiler/parser/expr/optimizer.rs
+++ b/cordy-sys/src/compiler/parser/expr/optimizer.rs
@@ -33,7 +33,8 @@ impl Visitor for Optimizer {
 
             Expr(loc, ExprType::Binary(op, lhs, rhs, swap)) => match lhs.into_const() {
                 Ok(lhs) => match rhs.into_const() {
-                    Ok(rhs) => Expr::result(loc, if swap { op.apply(rhs, lhs) } else { op.apply(lhs, rhs) }),
+                    // N.B. `swap` only affects the order of evaluation, `lhs` and `rhs` are always on the correct side
+                    Ok(rhs) => Expr::result(loc, op.apply(lhs, rhs)),
                     Err(rhs) => Expr::value(loc, lhs).binary(loc, op, rhs, swap),
                 },
                 Err(lhs) => lhs.binary(loc, op, *rhs, swap),
-- 
2.43.0


From bc5f7ad86d47edec3f1d225d405670426c96fe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 05/32] fix: x->field .= f compared with f instead of calling
 it

---
 cordy-sys/src/compiler/parser/codegen.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/codegen.rs b/cordy-sys/src/compiler/parser/codegen.rs
index 5bb5dd4..f5d4c85 100644
--- a/cordy-sys/src/compiler/parser/codegen.rs
+++ b/cordy-sys/src/compiler/parser/codegen.rs
@@ -249,7 +249,13 @@ impl<'a> Parser<'a> {
                 self.emit_expr(*lhs);
                 self.push_at(GetFieldPeek(field_index), loc);
                 self.emit_expr(*rhs);
-                self.push_at(Binary(op), loc);
+                match op {
+                    BinaryOp::NotEqual => { // Marker to indicate this is a `lhs->field .= rhs`
+                        self.push(Swap);
+                        self.push_at(Call(1, false), loc);
+                    },
+                    op => self.push_at(Binary(op), loc),
+                }
                 self.push_at(SetField(field_index), loc);
             },
             Expr(loc, ExprType::Assignment(lvalue, rhs)) => {
-- 
2.43.0


From d0b094aba3b96e454101f7b1f753d1ec8a3df60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 06/32] fix: partially applying &, | or ^ from the right
 evaluated the operands in the wrong order

---
 cordy-sys/src/core/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index 60a48f9..b5e6adb 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -80,8 +80,11 @@ pub enum NativeFunction {
     OperatorRightShift,
     OperatorRightShiftSwap,
     OperatorBitwiseAnd,
+    OperatorBitwiseAndSwap,
     OperatorBitwiseOr,
+    OperatorBitwiseOrSwap,
     OperatorBitwiseXor,
+    OperatorBitwiseXorSwap,
     OperatorLessThan,
     OperatorLessThanSwap,
     OperatorLessThanEqual,
@@ -246,6 +249,12 @@ impl NativeFunction {
             OperatorLeftShiftSwap => OperatorLeftShift,
             OperatorRightShift => OperatorRightShiftSwap,
             OperatorRightShiftSwap => OperatorRightShift,
+            OperatorBitwiseAnd => OperatorBitwiseAndSwap,
+            OperatorBitwiseAndSwap => OperatorBitwiseAnd,
+            OperatorBitwiseOr => OperatorBitwiseOrSwap,
+            OperatorBitwiseOrSwap => OperatorBitwiseOr,
+            OperatorBitwiseXor => OperatorBitwiseXorSwap,
+            OperatorBitwiseXorSwap => OperatorBitwiseXor,
             OperatorLessThan => OperatorLessThanSwap,
             OperatorLessThanSwap => OperatorLessThan,
             OperatorLessThanEqual => OperatorLessThanEqualSwap,
@@ -341,8 +350,11 @@ const fn load_native_functions() -> [NativeFunctionInfo; NativeFunction::total()
         op2(OperatorRightShift, "(>>)"),
         op2(OperatorRightShiftSwap, "(>>)"),
         op2(OperatorBitwiseAnd, "(&)"),
+        op2(OperatorBitwiseAndSwap, "(&)"),
         op2(OperatorBitwiseOr, "(|)"),
+        op2(OperatorBitwiseOrSwap, "(|)"),
         op2(OperatorBitwiseXor, "(^)"),
+        op2(OperatorBitwiseXorSwap, "(^)"),
         op2(OperatorLessThan, "(<)"),
         op2(OperatorLessThanSwap, "(<)"),
         op2(OperatorLessThanEqual, "(<=)"),
@@ -971,8 +983,11 @@ fn invoke_arg2<VM : VirtualInterface>(f: NativeFunction, a1: ValuePtr, a2: Value
         OperatorRightShift => operator::binary_right_shift(a1, a2),
         OperatorRightShiftSwap => operator::binary_right_shift(a2, a1),
         OperatorBitwiseAnd => operator::binary_bitwise_and(a1, a2),
+        OperatorBitwiseAndSwap => operator::binary_bitwise_and(a2, a1),
         OperatorBitwiseOr => operator::binary_bitwise_or(a1, a2),
+        OperatorBitwiseOrSwap => operator::binary_bitwise_or(a2, a1),
         OperatorBitwiseXor => operator::binary_bitwise_xor(a1, a2),
+        OperatorBitwiseXorSwap => operator::binary_bitwise_xor(a2, a1),
         OperatorLessThan => (a1 < a2).to_value().ok(),
         OperatorLessThanSwap => (a2 < a1).to_value().ok(),
         OperatorLessThanEqual => (a1 <= a2).to_value().ok(),
-- 
2.43.0


From 4e1bc4c6e521b5ce01efe628d5dbdcd0793d0b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 07/32] fix: calling a list as a function kept the list
 borrowed while a default factory runs

---
 cordy-sys/src/vm/mod.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index f421126..772b424 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -804,11 +804,14 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
                 }
                 let arg = self.pop();
                 let func = self.pop();
-                let list = func.as_list().borrow();
-                if list.len() != 1 {
-                    return ValueErrorEvalListMustHaveUnitLength(list.len()).err()
-                }
-                let index = list[0].clone();
+                let index = {
+                    // The list must not be borrowed during `get_index()`, as that may invoke a default factory
+                    let list = func.as_list().borrow();
+                    if list.len() != 1 {
+                        return ValueErrorEvalListMustHaveUnitLength(list.len()).err()
+                    }
+                    list[0].clone()
+                };
                 let result = core::get_index(self, &arg, index)?;
                 self.push(result);
                 Ok(FunctionType::Native)
-- 
2.43.0


From 11cc1b08d901ae2f52aafdaf872556cacd40103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 08/32] fix: union, intersect and difference of a set with
 itself panicked

---
 cordy-sys/src/core/collections.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 550fecf..a3aec15 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -643,8 +643,10 @@ pub fn set_union(other: ValuePtr, this: ValuePtr) -> ValueResult {
     match this.ty() {
         Type::Set => {
             // this.union(other) := add everything from other to this
+            // Collect `other` before borrowing `this`, as they might be the same set
+            let other: Vec<ValuePtr> = other.to_iter()?.collect();
             let mut set = this.as_set().borrow_mut();
-            for e in other.to_iter()? {
+            for e in other {
                 set.insert(e);
             }
             drop(set);
@@ -659,8 +661,9 @@ pub fn set_intersect(other: ValuePtr, this: ValuePtr) -> ValueResult {
         Type::Set => {
             // this.intersect(other) := only keep elements of this that are also in other
             // Since we have just an iterator, we need to compute a set of `other`, then repeatedly check `contains()` for each element in `this`
-            let mut set = this.as_set().borrow_mut();
+            // This must happen before borrowing `this`, as they might be the same set
             let other = other.to_iter()?.collect::<IndexSet<ValuePtr, FxBuildHasher>>();
+            let mut set = this.as_set().borrow_mut();
             set.retain(|e| other.contains(e));
             drop(set);
             this.ok()
@@ -673,8 +676,10 @@ pub fn set_difference(other: ValuePtr, this: ValuePtr) -> ValueResult {
     match this.ty() {
         Type::Set => {
             // this.difference(other) := remove everything from this that is in other
+            // Collect `other` before borrowing `this`, as they might be the same set
+            let other: Vec<ValuePtr> = other.to_iter()?.collect();
             let mut set = this.as_set().borrow_mut();
-            for e in other.to_iter()? {
+            for e in other {
                 set.remove(&e);
             }
             drop(set);
-- 
2.43.0


From 1d359b465a1f42e7fe12222d61e1ef4e854a172c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 09/32] fix: set difference did not preserve the insertion
 order of the remaining elements

---
 cordy-sys/src/core/collections.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index a3aec15..e5f4855 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -680,7 +680,7 @@ pub fn set_difference(other: ValuePtr, this: ValuePtr) -> ValueResult {
             let other: Vec<ValuePtr> = other.to_iter()?.collect();
             let mut set = this.as_set().borrow_mut();
             for e in other {
-                set.remove(&e);
+                set.shift_remove(&e); // `shift_remove` preserves the insertion order of the remaining elements
             }
             drop(set);
             this.ok()
-- 
2.43.0


From 81bf9f171a0401aead4ec74bbb105ec13ef8a0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 10/32] fix: a run-time error in the REPL left variables
 denoting the wrong stack slots

---
 cordy-sys/src/vm/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index 772b424..b22c5b4 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -226,10 +226,18 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
     }
 
     /// Recovers the VM into an operational state, in case previous instructions terminated in an error or in the middle of a function
+    ///
+    /// - `locals` is the number of global variables that have been declared. If execution was terminated before all of them were initialized, the remaining ones are `nil`
     pub fn run_recovery(&mut self, locals: usize) {
         self.call_stack.truncate(1);
-        self.stack.truncate(locals);
+        for (index, upvalue) in self.open_upvalues.drain() {
+            // The stack slot is about to be dropped, so close any closures which are still referencing it
+            upvalue.set(UpValue::Closed(self.stack.get(index).cloned().unwrap_or_default()));
+        }
+        self.stack.resize(locals, ValuePtr::nil());
+        self.global_count = locals;
         self.literal_stack.clear();
+        self.unroll_stack.clear();
         self.ip = self.code.len();
     }
 
-- 
2.43.0


From a19bf0ea951e3796437eeb99d75f021bcc03983c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 11/32] fix: a failed eval() left its fields, constants and
 code in the compiler state

---
 cordy-sys/src/compiler/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/mod.rs b/cordy-sys/src/compiler/mod.rs
index d0579db..da296ba 100644
--- a/cordy-sys/src/compiler/mod.rs
+++ b/cordy-sys/src/compiler/mod.rs
@@ -84,9 +84,17 @@ pub fn incremental_compile(mut params: CompileParameters) -> IncrementalCompileR
 ///
 /// This is the API used to run an `eval()` statement.
 pub fn eval_compile(text: String, mut params: CompileParameters) -> AnyResult {
+    // Stage changes, so an error doesn't overwrite the current valid compile state
+    let state: CompileState = params.save();
+
     params.view.push(String::from("<eval>"), text);
-    try_incremental_compile(&mut params, |parser| parser.parse_incremental_eval(), false)
-        .ok_or_runtime_error()
+    let ret: IncrementalCompileResult = try_incremental_compile(&mut params, |parser| parser.parse_incremental_eval(), false);
+
+    if !ret.is_success() { // Revert staged changes
+        params.restore(state);
+    }
+
+    ret.ok_or_runtime_error()
 }
 
 
-- 
2.43.0


From b9f0b43e717d41605a60015566776fc3ba2ae126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 12/32] fix: late bound references in one expression were
 loaded in the wrong order

`fn f() { x - y } let x = 10 let y = 3` computed y - x, and a reference at the
end of a block that ends in a branch panicked: the position of the reference
was the id of the next opcode, which several references share and which may
never be pushed. Reserve an opcode for each reference instead.
---
 cordy-sys/src/compiler/parser/core/graph.rs | 37 ++++++++++++---------
 cordy-sys/src/compiler/parser/core/mod.rs   |  4 +--
 cordy-sys/src/compiler/parser/semantic.rs   | 20 +++++------
 3 files changed, 34 insertions(+), 27 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/core/graph.rs b/cordy-sys/src/compiler/parser/core/graph.rs
index 1e134bf..b2e5e51 100644
--- a/cordy-sys/src/compiler/parser/core/graph.rs
+++ b/cordy-sys/src/compiler/parser/core/graph.rs
@@ -105,26 +105,32 @@ impl<'a> Parser<'a> {
         }
     }
 
-    /// Returns a unique identifier for the next opcode in the current function.
+    /// Reserves the next opcode in the current function, by pushing a placeholder for it, and returns a unique identifier for it.
     ///
     /// N.B. The parser **must** be within a function, this does not allow identifying targets within global code!
-    pub fn next_opcode(&self) -> OpcodeId {
+    pub fn next_opcode(&mut self, loc: Location) -> OpcodeId {
         let function_id = self.current_locals().func.expect("next_opcode() called in global scope!");
-        let blocks = &self.functions[function_id].code.blocks;
+        let blocks = &mut self.functions[function_id].code.blocks;
         let block_id = blocks.len() - 1;
-        let opcode_id = blocks[block_id].code.len();
+        let opcode_id = blocks[block_id].push(loc, Opcode::placeholder());
 
         OpcodeId { function_id, code_id: CodeId { block_id, opcode_id } }
     }
 
     pub fn insert(&mut self, at: OpcodeId, loc: Location, opcode: Opcode) { Parser::do_insert(at, loc, opcode, &mut self.functions) }
+    pub fn replace(&mut self, at: OpcodeId, loc: Location, opcode: Opcode) { Parser::do_replace(at, loc, opcode, &mut self.functions) }
 
-    /// Inserts the provided instruction at the `OpcodeId`, and shifts all other code forward.
+    /// Inserts the provided instruction before the one at the `OpcodeId`, and shifts that and all later code forward.
     ///
     /// **Implementation Note:** This does not take `&mut self` to allow the flexibility of partial borrows.
     pub fn do_insert(at: OpcodeId, loc: Location, opcode: Opcode, functions: &mut [ParserFunctionImpl]) {
         functions[at.function_id].code.blocks[at.code_id.block_id].insert(at.code_id.opcode_id, loc, opcode);
     }
+
+    /// Replaces the placeholder instruction at the `OpcodeId`
+    pub fn do_replace(at: OpcodeId, loc: Location, opcode: Opcode, functions: &mut [ParserFunctionImpl]) {
+        functions[at.function_id].code.blocks[at.code_id.block_id].replace(at.code_id.opcode_id, loc, opcode);
+    }
 }
 
 
@@ -290,16 +296,17 @@ impl Block {
     }
 
     fn insert(&mut self, id: usize, loc: Location, opcode: Opcode) {
-        match self.code.iter().position(|(i, _, _)| i == &id) {
-            // The target `OpcodeId` was found, so insert immediately after, and shift all opcodes to the right
-            Some(code_id) => self.code.insert(code_id, (self.code.len(), loc, opcode)),
-            // The target `OpcodeId` was not found, which means this was an empty block
-            // Just push into the empty block
-            None => {
-                debug_assert!(self.code.is_empty()); // This should always be true, if we cannot find a matching `OpcodeId`
-                self.code.push((0, loc, opcode))
-            }
-        }
+        let index = self.position(id);
+        self.code.insert(index, (self.code.len(), loc, opcode))
+    }
+
+    fn replace(&mut self, id: usize, loc: Location, opcode: Opcode) {
+        let index = self.position(id);
+        self.code[index] = (id, loc, opcode);
+    }
+
+    fn position(&self, id: usize) -> usize {
+        self.code.iter().position(|(i, _, _)| i == &id).unwrap() // Safe because the opcode has been reserved by `next_opcode()`
     }
 
     fn end(&mut self, end: BlockEnd) {
diff --git a/cordy-sys/src/compiler/parser/core/mod.rs b/cordy-sys/src/compiler/parser/core/mod.rs
index 36bba9e..78b3c73 100644
--- a/cordy-sys/src/compiler/parser/core/mod.rs
+++ b/cordy-sys/src/compiler/parser/core/mod.rs
@@ -233,7 +233,7 @@ impl<'a> Parser<'a> {
             LValueReference::NativeFunction(native) => self.push_at(NativeFunction(native), loc),
 
             LValueReference::LateBinding(mut binding) => {
-                binding.update(ReferenceType::Load(self.next_opcode()));
+                binding.update(ReferenceType::Load(self.next_opcode(loc)));
                 self.late_bindings.push(*binding);
             }
 
@@ -271,7 +271,7 @@ impl<'a> Parser<'a> {
             LValueReference::NativeFunction(_) => self.error(AssignmentTargetInvalid),
 
             LValueReference::LateBinding(mut binding) => {
-                binding.update(ReferenceType::Store(self.next_opcode()));
+                binding.update(ReferenceType::Store(self.next_opcode(loc)));
                 self.late_bindings.push(*binding);
             }
 
diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index b5ef389..411e09c 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1032,8 +1032,8 @@ impl<'a> Parser<'a> {
 
                 // Update the binding if possible
                 match (binding.ty, &result) {
-                    (ReferenceType::Load(at), LateBound::Local(index)) => self.insert(at, binding.loc, PushGlobal(*index)),
-                    (ReferenceType::Store(at), LateBound::Local(index)) => self.insert(at, binding.loc, StoreGlobal(*index, false)),
+                    (ReferenceType::Load(at), LateBound::Local(index)) => self.replace(at, binding.loc, PushGlobal(*index)),
+                    (ReferenceType::Store(at), LateBound::Local(index)) => self.replace(at, binding.loc, StoreGlobal(*index, false)),
                     (ReferenceType::StorePattern(pattern_index), LateBound::Local(local)) => {
                         // Need to update all the matching late bound globals in the pattern
                         let pattern = &mut self.patterns[pattern_index];
@@ -1052,15 +1052,15 @@ impl<'a> Parser<'a> {
                             match binding.this {
                                 LValueReference::Invalid => self.error_at(binding.loc, UndeclaredSelf),
 
-                                // Since we have a single reference point for insert, we need to insert in reverse order from the same point
+                                // Insert the load of `self` before the reserved opcode, which becomes the `GetMethod`
                                 // Slightly different opcodes for `LocalThis` vs. `UpValueThis`
                                 LValueReference::LocalThis(index) => {
-                                    self.insert(at.clone(), binding.loc, GetMethod(*function_id));
-                                    self.insert(at, binding.loc, PushLocal(index))
+                                    self.insert(at.clone(), binding.loc, PushLocal(index));
+                                    self.replace(at, binding.loc, GetMethod(*function_id))
                                 }
                                 LValueReference::UpValueThis(index) => {
-                                    self.insert(at.clone(), binding.loc, GetMethod(*function_id));
-                                    self.insert(at, binding.loc, PushUpValue(index))
+                                    self.insert(at.clone(), binding.loc, PushUpValue(index));
+                                    self.replace(at, binding.loc, GetMethod(*function_id))
                                 },
 
                                 lvalue => panic!("`self` should not be bound to {:?}", lvalue)
@@ -1068,7 +1068,7 @@ impl<'a> Parser<'a> {
                         } else {
                             // If the current method is a non-self method, then references to it just use the function ID
                             // Both self methods and non-self methods can call it this way.
-                            self.insert(at, binding.loc, Constant(*function_id));
+                            self.replace(at, binding.loc, Constant(*function_id));
                         }
                     },
                     (ReferenceType::Store(_), LateBound::Method { .. }) => self.error_at(binding.loc, AssignmentTargetInvalid),
@@ -1086,8 +1086,8 @@ impl<'a> Parser<'a> {
         for binding in self.late_bindings.drain(..) {
             if let Some(fallback) = binding.fallback {
                 match binding.ty {
-                    ReferenceType::Load(at) => Parser::do_insert(at, binding.loc, PushGlobal(fallback), &mut self.functions),
-                    ReferenceType::Store(at) => Parser::do_insert(at, binding.loc, StoreGlobal(fallback, false), &mut self.functions),
+                    ReferenceType::Load(at) => Parser::do_replace(at, binding.loc, PushGlobal(fallback), &mut self.functions),
+                    ReferenceType::Store(at) => Parser::do_replace(at, binding.loc, StoreGlobal(fallback, false), &mut self.functions),
                     _ => panic!()
                 }
             } else if binding.error {
-- 
2.43.0


From 61ebb7ed530887d6e92a7a37f07d31210560b88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 13/32] fix: a late bound variable in a pattern resolved into
 another pattern

`w, a[((y, z) = [(0, 1)])[0][0]] = (5, 6)` in a function declared before the
global w stored to the wrong variable: the index of the outer pattern was taken
before the expressions inside it declared patterns of their own.
---
 cordy-sys/src/compiler/parser/semantic.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 411e09c..9a3ae72 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -547,9 +547,7 @@ impl LValue {
                 None
             }
             LValue::Terms(_) => {
-                let index = parser.patterns.len();
-                let pattern = self.build_pattern(parser, index);
-                let pattern_id = parser.declare_pattern(pattern);
+                let pattern_id = LValue::emit_expression_destructuring(self.into_terms(), parser);
 
                 parser.push(ExecPattern(pattern_id));
                 parser.push(Pop); // Push the final pop
@@ -564,9 +562,13 @@ impl LValue {
     /// 2. The output will be handled as part of codegen, and thus does not need to emit code
     /// 3. This always returns the pattern index
     pub(super) fn emit_expression_destructuring(terms: Vec<LValue>, parser: &mut Parser) -> u32 {
+        // Declare the pattern first, as building it may emit expressions which declare patterns of their own
         let index = parser.patterns.len();
+        let pattern_id = parser.declare_pattern(Pattern::new(0, false));
         let pattern = LValue::do_build_pattern(terms, parser, index);
-        parser.declare_pattern(pattern)
+
+        parser.patterns[index] = pattern;
+        pattern_id
     }
 
     fn build_pattern(self, parser: &mut Parser, pattern_index: usize) -> Pattern<ParserStoreOp> {
-- 
2.43.0


From b419d9f01f37e2138a3aabb4b29117a6e27dd465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 14/32] fix: assigning a global variable in a pattern inside a
 struct or module panicked

`let x, y struct S() { fn f() { x, y = (1, 2) } }`: the fallback of a late
binding handled loads and stores, but not patterns.
---
 cordy-sys/src/compiler/parser/semantic.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 9a3ae72..8af3963 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1038,14 +1038,7 @@ impl<'a> Parser<'a> {
                     (ReferenceType::Store(at), LateBound::Local(index)) => self.replace(at, binding.loc, StoreGlobal(*index, false)),
                     (ReferenceType::StorePattern(pattern_index), LateBound::Local(local)) => {
                         // Need to update all the matching late bound globals in the pattern
-                        let pattern = &mut self.patterns[pattern_index];
-                        pattern.visit(&mut |op| {
-                            if let ParserStoreOp::LateBoundGlobal(index) = op {
-                                if *index == binding.index {
-                                    *op = ParserStoreOp::Bound(StoreOp::Global(*local))
-                                }
-                            }
-                        });
+                        Parser::resolve_late_bound_pattern(&mut self.patterns[pattern_index], binding.index, *local);
                     },
                     (ReferenceType::Load(at), LateBound::Method { function_id, instance }) => {
                         if *instance {
@@ -1083,6 +1076,17 @@ impl<'a> Parser<'a> {
         }
     }
 
+    /// Resolves all references of the late binding `binding_index` in `pattern` to the global variable `local`
+    fn resolve_late_bound_pattern(pattern: &mut Pattern<ParserStoreOp>, binding_index: usize, local: u32) {
+        pattern.visit(&mut |op| {
+            if let ParserStoreOp::LateBoundGlobal(index) = op {
+                if *index == binding_index {
+                    *op = ParserStoreOp::Bound(StoreOp::Global(local))
+                }
+            }
+        });
+    }
+
     /// Resolves any outstanding late bindings present at teardown, by either falling back to a global, or raises an error.
     pub fn resolve_remaining_late_bindings(&mut self) {
         for binding in self.late_bindings.drain(..) {
@@ -1090,6 +1094,7 @@ impl<'a> Parser<'a> {
                 match binding.ty {
                     ReferenceType::Load(at) => Parser::do_replace(at, binding.loc, PushGlobal(fallback), &mut self.functions),
                     ReferenceType::Store(at) => Parser::do_replace(at, binding.loc, StoreGlobal(fallback, false), &mut self.functions),
+                    ReferenceType::StorePattern(pattern_index) => Parser::resolve_late_bound_pattern(&mut self.patterns[pattern_index], binding.index, fallback),
                     _ => panic!()
                 }
             } else if binding.error {
-- 
2.43.0


From d500b529436bfc1a4dbabab420bf962df8a49ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 15/32] fix: a reference could bind to the method of an
 unrelated module

`fn f() { g() } module M { fn g() {} } fn g() {}` made f call M->g: a late bound
reference was resolved by any method of the same name declared later. Only bind
to methods of the modules the reference occurs in; and report an assignment to
a method in a pattern, which panicked.
---
 cordy-sys/src/compiler/parser/semantic.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 8af3963..0db7587 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -246,6 +246,8 @@ pub struct LateBinding {
     fallback: Option<u32>,
     /// If true, an error should be raised. Represents the state of the error recovery mode when hit
     error: bool,
+    /// How many of the enclosing modules, still being parsed, this reference occurred in. It may only bind to methods of those.
+    module_depth: u32,
 }
 
 impl LateBinding {
@@ -265,7 +267,7 @@ impl LateBinding {
 
         parser.late_binding_next_index += 1;
 
-        Box::new(LateBinding { index, name, this, ty: ReferenceType::Invalid, loc, fallback, error })
+        Box::new(LateBinding { index, name, this, ty: ReferenceType::Invalid, loc, fallback, error, module_depth: parser.module_depth })
     }
 
     pub fn update(&mut self, ty: ReferenceType) {
@@ -929,6 +931,12 @@ impl<'a> Parser<'a> {
 
         // Decrement module depth
         self.module_depth -= 1;
+
+        // Any references which remain late bound are not able to bind to methods of later modules
+        let depth = self.module_depth;
+        for binding in &mut self.late_bindings {
+            binding.module_depth = binding.module_depth.min(depth);
+        }
     }
 
     /// Declares a function with a given name and arguments.
@@ -1029,7 +1037,11 @@ impl<'a> Parser<'a> {
 
             // If the binding matches, it will be declared here
             // The first declaration is always the matching one, as the precedence for methods/fields -> globals is always maintained
-            if binding.name == name {
+            let visible = match &result {
+                LateBound::Local(_) => true,
+                LateBound::Method { .. } => binding.module_depth >= self.module_depth,
+            };
+            if binding.name == name && visible {
                 let binding = self.late_bindings.swap_remove(i); // Remove this binding - this drops the borrow on self.bindings
 
                 // Update the binding if possible
@@ -1066,7 +1078,7 @@ impl<'a> Parser<'a> {
                             self.replace(at, binding.loc, Constant(*function_id));
                         }
                     },
-                    (ReferenceType::Store(_), LateBound::Method { .. }) => self.error_at(binding.loc, AssignmentTargetInvalid),
+                    (ReferenceType::Store(_) | ReferenceType::StorePattern(_), LateBound::Method { .. }) => self.error_at(binding.loc, AssignmentTargetInvalid),
                     (_, _) => panic!("Invalid reference type set!"),
                 }
                 continue; // Skip the below i += 1, since this binding got swap-removed
-- 
2.43.0


From 337f277ecb70d7a30755f78daf1b0ed7de4e0c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:43 +0000
Subject: [PATCH 16/32] fix: a global function could be read while its
 annotations are evaluated

`fn dec(f) { print(g) f } @dec fn g() {}` printed dec: g counted as declared
before the annotation was called, when its stack slot still held the annotation.
---
 cordy-sys/src/compiler/parser/mod.rs      | 38 ++++++++++++++++-------
 cordy-sys/src/compiler/parser/semantic.rs |  5 +++
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 11317af..f458108 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -277,7 +277,7 @@ impl Parser<'_> {
             trace::trace_parser!("rule <statement>");
             match self.peek() {
                 Some(At) => self.parse_annotated_named_function(),
-                Some(KeywordFn) => self.parse_named_function(),
+                Some(KeywordFn) => { self.parse_named_function(true); },
                 Some(KeywordReturn) => self.parse_return_statement(),
                 Some(KeywordLet) => self.parse_let_statement(),
                 Some(KeywordIf) => self.parse_if_statement(),
@@ -446,25 +446,37 @@ impl Parser<'_> {
     }
 
     fn parse_annotated_named_function(&mut self) {
-        trace::trace_parser!("rule <annotated-named-function");
+        // A global function is only initialized once all annotations have been evaluated
+        if let Some(local) = self.parse_annotation_and_named_function() {
+            self.init_local(local);
+        }
+    }
+
+    fn parse_annotation_and_named_function(&mut self) -> Option<usize> {
+        trace::trace_parser!("rule <annotated-named-function>");
 
         self.push_delayed_pop();
         self.advance(); // Consume `@`
         self.parse_expression(); // The annotation body
-        match self.peek() {
-            Some(At) => self.parse_annotated_named_function(),
-            Some(KeywordFn) => self.parse_named_function(),
-            _ => self.error_with(ExpectedAnnotationOrNamedFunction),
-        }
-        self.push(Call(1, false)) // Evaluate the annotation
+        let local = match self.peek() {
+            Some(At) => self.parse_annotation_and_named_function(),
+            Some(KeywordFn) => self.parse_named_function(false),
+            _ => {
+                self.error_with(ExpectedAnnotationOrNamedFunction);
+                None
+            },
+        };
+        self.push(Call(1, false)); // Evaluate the annotation
+        local
     }
 
-    fn parse_named_function(&mut self) {
+    /// If `init` is `false`, the function can be referenced, but the caller is responsible for initializing the returned local.
+    fn parse_named_function(&mut self, init: bool) -> Option<usize> {
         // Before we enter this rule, we instead check if we see `fn` `(`, which would imply this is actually part of an expression
         // If so, we shortcut into that
         if let Some(OpenParen) = self.peek2() {
             self.parse_expression_statement();
-            return
+            return None
         }
 
         trace::trace_parser!("rule <named-function>");
@@ -478,13 +490,17 @@ impl Parser<'_> {
 
         // Named functions are a complicated local variable, and needs to be declared as such
         // Note that we always declare the function here, to preserve parser operation in the event of a parse error
-        self.declare_local(name.clone(), true);
+        let local = self.declare_local(name.clone(), init);
+        if let (Some(local), false) = (local, init) {
+            self.allow_references_to_local(local);
+        }
 
         let func: u32 = self.declare_function(name, &params);
         self.push(Constant(func));
 
         // Emit the closed locals from the function body right away, because we are not in an expression context
         self.parse_function_body_and_emit(params);
+        local
     }
 
     fn parse_expression_function(&mut self) -> Expr {
diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 0db7587..6427a6f 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1407,6 +1407,11 @@ impl<'a> Parser<'a> {
     }
 
     /// Initializes a local, so it can be referenced.
+    /// Marks the corresponding `Local` as initialized, without pushing a `InitGlobal` opcode.
+    pub fn allow_references_to_local(&mut self, index: usize) {
+        self.current_locals_mut().locals[index].initialized = true;
+    }
+
     /// Marks the corresponding `Local` as initialized, and also (if necessary), pushes a `IncGlobalCount` opcode.
     pub fn init_local(&mut self, index: usize) {
         let local = &mut self.current_locals_mut().locals[index];
-- 
2.43.0


From 3429764d39fcc5c1763f4b28a938c1e73fe12837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 17/32] fix: built-ins kept calling a function after it raised
 an error

---
 cordy-sys/src/util.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cordy-sys/src/util.rs b/cordy-sys/src/util.rs
index fcb4ab0..009dd77 100644
--- a/cordy-sys/src/util.rs
+++ b/cordy-sys/src/util.rs
@@ -23,6 +23,9 @@ pub fn strip_line_ending(buffer: &mut String) {
 /// N.B. This did not work without specifying the types `Box<RuntimeError>` exactly. I do not know why.
 #[inline(always)]
 pub fn catch<T>(err: &mut Option<ErrorPtr>, f: impl FnOnce() -> ErrorResult<T>, default: T) -> T {
+    if err.is_some() {
+        return default // Once an error has been raised, no more user code may run
+    }
     match f().branch() {
         ControlFlow::Continue(e) => e,
         ControlFlow::Break(Err(e)) => {
-- 
2.43.0


From eae2dc164e596303fa3a70e288007518b7d644a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:03 +0000
Subject: [PATCH 18/32] fix: a rational equal to an integer hashed differently
 from it

---
 cordy-sys/src/vm/value/ptr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/value/ptr.rs b/cordy-sys/src/vm/value/ptr.rs
index f396b59..6d30d17 100644
--- a/cordy-sys/src/vm/value/ptr.rs
+++ b/cordy-sys/src/vm/value/ptr.rs
@@ -572,7 +572,7 @@ impl Hash for ValuePtr {
                 // If rationals are expressible as 64-bit integers, they must hash identical to those
                 let value = self.as_rational();
                 match value.numer().to_i64() {
-                    Some(int) if value.denom() == &SmallInteger::from(0) => (int as u64).hash(state),
+                    Some(int) if value.denom() == &SmallInteger::from(1) => int.to_value().hash(state),
                     _ => value.hash(state),
                 }
             },
-- 
2.43.0


From 22e8f020f0cad7ada17999ab4d87d49c78c0d24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 19/32] fix: equal sets or dicts hashed differently when their
 entries were inserted in another order

---
 cordy-sys/src/vm/value/collections.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/cordy-sys/src/vm/value/collections.rs b/cordy-sys/src/vm/value/collections.rs
index 2b48c8d..f345341 100644
--- a/cordy-sys/src/vm/value/collections.rs
+++ b/cordy-sys/src/vm/value/collections.rs
@@ -3,7 +3,7 @@ use std::cmp::{Ordering, Reverse};
 use std::collections::{BinaryHeap, VecDeque};
 use std::hash::{Hash, Hasher};
 use std::ops::{Deref, DerefMut};
-use fxhash::FxBuildHasher;
+use fxhash::{FxBuildHasher, FxHasher};
 use indexmap::{IndexMap, IndexSet};
 
 use crate::core::InvokeArg0;
@@ -115,11 +115,7 @@ impl Ord for Set {
 impl Hash for Prefix<Set> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         match self.try_borrow() {
-            Some(it) => {
-                for v in &it.set {
-                    v.hash(state)
-                }
-            },
+            Some(it) => hash_unordered(it.set.iter(), state),
             None => FLAG_RECURSIVE_HASH.with(|cell| cell.set(true)),
         }
     }
@@ -178,17 +174,25 @@ impl Ord for Dict {
 impl Hash for Prefix<Dict> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         match self.try_borrow() {
-            Some(it) => {
-                for v in &it.dict {
-                    v.hash(state)
-                }
-            },
+            Some(it) => hash_unordered(it.dict.iter(), state),
             None => FLAG_RECURSIVE_HASH.with(|cell| cell.set(true))
         }
     }
 }
 
 
+/// The equality of sets and dicts does not depend on the order of their entries, so neither can their hash
+fn hash_unordered<T: Hash, H: Hasher>(entries: impl Iterator<Item=T>, state: &mut H) {
+    let mut total: u64 = 0;
+    for entry in entries {
+        let mut hasher = FxHasher::default();
+        entry.hash(&mut hasher);
+        total = total.wrapping_add(hasher.finish());
+    }
+    total.hash(state)
+}
+
+
 // Support for `set` and `dict` recursive hash exceptions
 thread_local! {
     static FLAG_RECURSIVE_HASH: Cell<bool> = Cell::new(false);
-- 
2.43.0


From 34e3adec4d7817960a81813af8354640627e11cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 20/32] fix: a captured variable referenced twice through an
 intermediate function read another variable

---
 cordy-sys/src/compiler/parser/semantic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 6427a6f..0e8e088 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1386,9 +1386,9 @@ impl<'a> Parser<'a> {
 
             // Only add it if we haven't found an upvalue with the same index and `!is_local` (which is unique).
             let mut found: bool = false;
-            for upvalue in &self.locals[depth as usize].upvalues {
+            for (i, upvalue) in self.locals[depth as usize].upvalues.iter().enumerate() {
                 if upvalue.index == index && !upvalue.is_local {
-                    index = upvalue.index; // Update the index
+                    index = i as u32; // Update the index
                     found = true; // And mark that we found an existing one
                     break
                 }
-- 
2.43.0


From 57325e773b9c0adb4bc15936407d81fc5e00599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:10 +0000
Subject: [PATCH 21/32] fix: comparisons and logical operators were rejected
 after the first comma of an assigned vector

---
 cordy-sys/src/compiler/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index f458108..01fbb2b 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -2007,7 +2007,7 @@ impl Parser<'_> {
                     }
 
                     self.advance(); // Consume `,`
-                    args.push(self.parse_expr_7());
+                    args.push(self.parse_expr_9());
                 }
                 _ => break
             }
-- 
2.43.0


From 272fb9b6a7fe24a842a94baafd79210ef00e3ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:47 +0000
Subject: [PATCH 22/32] fix: error messages named another operator or keyword
 than the one written (not in, max=, min=, module)

---
 cordy-sys/src/reporting.rs   | 8 ++++----
 cordy-sys/src/vm/operator.rs | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index b4e73ce..619ff45 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -409,15 +409,15 @@ impl AsError for BinaryOp {
             Or => "|",
             Xor => "^",
             In => "in",
-            NotIn => "in",
+            NotIn => "not in",
             LessThan => "<",
             GreaterThan => ">",
             LessThanEqual => "<=",
             GreaterThanEqual => ">=",
             Equal => "==",
             NotEqual => "!=",
-            Max => "min",
-            Min => "max",
+            Max => "max",
+            Min => "min",
         })
     }
 }
@@ -535,7 +535,7 @@ impl AsError for ScanToken {
             KeywordStruct => String::from("'struct' keyword"),
             KeywordExit => String::from("'exit' keyword"),
             KeywordAssert => String::from("'assert' keyword"),
-            KeywordModule => String::from("'mod' keyword"),
+            KeywordModule => String::from("'module' keyword"),
             KeywordSelf => String::from("'self' keyword"),
             KeywordNative => String::from("'native' keyword"),
 
diff --git a/cordy-sys/src/vm/operator.rs b/cordy-sys/src/vm/operator.rs
index 178ab1b..1c363a7 100644
--- a/cordy-sys/src/vm/operator.rs
+++ b/cordy-sys/src/vm/operator.rs
@@ -316,7 +316,7 @@ pub fn binary_in(lhs: ValuePtr, rhs: ValuePtr, invert: bool) -> ValueResult {
         (_, Dict) => rhs.as_dict().borrow().contains_key(&lhs),
         (_, Heap) => rhs.as_heap().borrow().iter().any(|v|v.0 == lhs),
         (_, Vector) => rhs.as_vector().borrow().contains(&lhs),
-        _ => return TypeErrorBinaryOp(BinaryOp::In, lhs, rhs).err()
+        _ => return TypeErrorBinaryOp(if invert { BinaryOp::NotIn } else { BinaryOp::In }, lhs, rhs).err()
     } != invert).to_value().ok()
 }
 
-- 
2.43.0


From 5ca0dc04c084034020d0a606aca3cb09f9dcb29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 23/32] fix: a default argument referencing a local of the
 enclosing function read another variable

The reference was resolved in the scope of the enclosing function, but loaded
by the function itself: `fn a(x) { fn b(y, z = x) -> z ; b(1) }` returned y, and
panicked in the compiler when the function had no such local. Resolve references
in default arguments from within the function, so they capture the variable.
---
 cordy-sys/src/compiler/parser/mod.rs      | 12 +++++++++---
 cordy-sys/src/compiler/parser/semantic.rs |  8 ++++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 01fbb2b..9734805 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -420,7 +420,7 @@ impl Parser<'_> {
         let function_id = self.functions.len() - 1;
         let handle_id = self.declare_native(module_name.to_owned(), method_name, params.args.len());
 
-        self.locals.push(Locals::new(Some(function_id)));
+        self.locals.push(params.locals.with_func(function_id));
         self.function_depth += 1;
         self.scope_depth += 1;
 
@@ -532,7 +532,8 @@ impl Parser<'_> {
             args: Vec::new(),
             default_args: Vec::new(),
             variadic: false,
-            instance: false
+            instance: false,
+            locals: Locals::new(None),
         };
 
         self.expect(OpenParen);
@@ -599,7 +600,12 @@ impl Parser<'_> {
                 },
                 Some(Equals) => {
                     self.advance(); // Consume `=`
+                    // Default arguments are evaluated by the function itself, so references in them need to be resolved from within the function
+                    self.locals.push(params.locals);
+                    self.function_depth += 1;
                     params.default_args.push(self.parse_expr()); // Parse an expression
+                    self.function_depth -= 1;
+                    params.locals = self.locals.pop().unwrap();
                 },
                 _ => if !params.variadic && !params.default_args.is_empty() {
                     self.semantic_error(NonDefaultParameterAfterDefaultParameter);
@@ -627,7 +633,7 @@ impl Parser<'_> {
         // In addition, we let parameters have their own scope depth one outside locals to the function
         // This lets us 1) declare parameters here, in the right scope,
         // and 2) avoid popping parameters at the end of a function call (as they're handled by the `Return` opcode instead)
-        self.locals.push(Locals::new(Some(self.functions.len() - 1)));
+        self.locals.push(params.locals.with_func(self.functions.len() - 1));
         self.function_depth += 1;
         self.scope_depth += 1;
 
diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 0e8e088..cdc7f0d 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -77,6 +77,12 @@ impl Locals {
         Locals { locals: Vec::new(), upvalues: Vec::new(), loops: Vec::new(), func }
     }
 
+    /// Returns this `Locals`, corresponding to the given function
+    pub(super) fn with_func(mut self, func: usize) -> Locals {
+        self.func = Some(func);
+        self
+    }
+
     /// Returns the length of the locals, effectively the number of variables declared in this frame.
     /// `locals[0].len()` will be the number of global variables, for a given `Locals` stack.
     pub fn len(&self) -> usize {
@@ -727,6 +733,8 @@ pub struct ParserFunctionParameters {
     pub variadic: bool,
     /// If `true`, this function has an explicit `self` parameter as it's first argument
     pub instance: bool,
+    /// The locals of the function, as of having parsed the default arguments - which may have captured variables
+    pub locals: Locals,
 }
 
 
-- 
2.43.0


From 2787bd33145deb4d077fd4486c364e996b7dd6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:51 +0000
Subject: [PATCH 24/32] fix: a captured for loop variable was not distinct per
 iteration after continue

The variables of a for loop are lifted at the end of its body, which continue
jumped over, leaving closures referring to a stack slot that is reused.
---
 cordy-sys/src/compiler/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 9734805..fa80390 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -972,7 +972,10 @@ impl Parser<'_> {
             Some(loop_stmt) => {
                 let jump = loop_stmt.start_id;
                 let depth: u32 = loop_stmt.inner_scope();
-                self.pop_locals(Some(depth), false, true, true);
+                let enclosing_depth: u32 = loop_stmt.enclosing_scope();
+                // The variables of a `for` loop are unique to each iteration, so they need to be lifted here as well, but are only popped once the loop ends
+                self.pop_locals(Some(enclosing_depth), false, false, true);
+                self.pop_locals(Some(depth), false, true, false);
                 self.join_reverse(jump, BranchType::Jump);
             },
             None => self.semantic_error(ContinueOutsideOfLoop),
-- 
2.43.0


From d5abbbc7587d61d9abbcfd914de13ac92c25eac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:50 +0000
Subject: [PATCH 25/32] fix: a closure returned from a loop before its capture
 in the text read a dead stack slot

---
 cordy-sys/src/vm/mod.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index b22c5b4..a7a0de7 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -315,6 +315,13 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
 
                     let frame: CallFrame = self.call_stack.pop().unwrap(); // Pop the call frame
 
+                    // A `return` in a loop does not lift locals which are first captured further down in the loop, but that may have been executed already
+                    if !self.open_upvalues.is_empty() {
+                        for index in frame.frame_pointer..self.stack.len() {
+                            self.lift_upvalue(index);
+                        }
+                    }
+
                     self.stack.swap_remove(frame.frame_pointer - 1); // This removes the function, and drops it, and it gets automatically replaced with the return value
                     self.stack.truncate(frame.frame_pointer); // Drop all values above the frame pointer
                     self.ip = frame.return_ip; // And jump to the return address
@@ -428,16 +435,7 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
                 },
 
                 LiftUpValue(index) => {
-                    let index = self.frame_pointer() + index as usize;
-                    if let Some(upvalue) = self.open_upvalues.remove(&index) {
-                        let value: ValuePtr = self.stack[index].clone();
-                        let unboxed: UpValue = (*upvalue).replace(UpValue::Open(0));
-                        let closed: UpValue = match unboxed {
-                            UpValue::Open(_) => UpValue::Closed(value),
-                            UpValue::Closed(_) => panic!("Tried to lift an already closed upvalue"),
-                        };
-                        (*upvalue).replace(closed);
-                    }
+                    self.lift_upvalue(self.frame_pointer() + index as usize);
                 },
 
                 InitIterable => {
@@ -708,6 +706,19 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
 
     // ===== Basic Ops ===== //
 
+    /// Closes the upvalue which is open for the stack slot `index`, if there is one.
+    fn lift_upvalue(&mut self, index: usize) {
+        if let Some(upvalue) = self.open_upvalues.remove(&index) {
+            let value: ValuePtr = self.stack[index].clone();
+            let unboxed: UpValue = (*upvalue).replace(UpValue::Open(0));
+            let closed: UpValue = match unboxed {
+                UpValue::Open(_) => UpValue::Closed(value),
+                UpValue::Closed(_) => panic!("Tried to lift an already closed upvalue"),
+            };
+            (*upvalue).replace(closed);
+        }
+    }
+
     /// Returns the current `frame_pointer`
     fn frame_pointer(&self) -> usize {
         self.call_stack[self.call_stack.len() - 1].frame_pointer
-- 
2.43.0


From e8efa681b56d3d9ac2cadd1dc639367d3adfaa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 26/32] fix: assigning a field of self by destructuring inside
 a method panicked the compiler

---
 cordy-sys/src/compiler/parser/semantic.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index cdc7f0d..f253161 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -654,6 +654,11 @@ impl LValueReference {
             LValueReference::Local(index) => ParserStoreOp::Bound(StoreOp::Local(index)),
             LValueReference::Global(index) => ParserStoreOp::Bound(StoreOp::Global(index)),
             LValueReference::UpValue(index) => ParserStoreOp::Bound(StoreOp::UpValue(index)),
+            LValueReference::ThisField { field_index, .. } => {
+                // `self` is required to be on the stack when the pattern is executed, as with any other field
+                parser.push_store_lvalue_prefix(&self, parser.prev_location());
+                ParserStoreOp::Bound(StoreOp::Field(field_index))
+            }
 
             LValueReference::LateBinding(mut binding) => {
                 let index = binding.index;
-- 
2.43.0


From 9879fed390176be04c5f0e6a9bb4ebeaf77009ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 27/32] fix: collect the right number of variadic arguments
 when calling a partially applied function

---
 cordy-sys/src/vm/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index a7a0de7..f72feea 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -785,7 +785,7 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
                     // Exactly enough arguments to invoke the function
                     // We need to set up the stack correctly to call the function
                     let head: usize = func.jump_offset(total_nargs);
-                    let num_var_args: Option<u32> = func.num_var_args(nargs);
+                    let num_var_args: Option<u32> = func.num_var_args(total_nargs);
                     let (ptr, args) = partial.consume();
                     self.stack[i] = ptr; // Replace the `Nil` from earlier
                     insert(&mut self.stack, args, nargs);
-- 
2.43.0


From 8c1236b0d4ef858c0f8d4ffe5c10956eecdfb46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:57 +0000
Subject: [PATCH 28/32] fix: treat memoized functions and field accessors as
 functions

---
 cordy-sys/src/vm/value/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index 9cbb40f..4552f36 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -122,7 +122,7 @@ impl Type {
     fn is_evaluable(self) -> bool {
         use Type::{*};
         match self {
-            Function | PartialFunction | NativeFunction | PartialNativeFunction | Closure | StructType | Slice => true,
+            Function | PartialFunction | NativeFunction | PartialNativeFunction | Closure | StructType | Slice | GetField | Memoized => true,
             _ => false
         }
     }
@@ -393,7 +393,8 @@ impl ValuePtr {
             Type::PartialNativeFunction => Some(self.as_partial_native().min_nargs()),
             Type::Closure => Some(self.as_closure().borrow_func().min_args()),
             Type::StructType => Some(self.as_struct_type().num_fields()),
-            Type::Slice => Some(1),
+            Type::Slice | Type::GetField => Some(1),
+            Type::Memoized => self.as_memoized().borrow().func.min_nargs(),
             _ => None,
         }
     }
-- 
2.43.0


From 93db53f3810026eee5a3a6de50306f18b814a81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:23 +0000
Subject: [PATCH 29/32] fix: exit has an effect, so the optimizer does not
 evaluate it before the argument it is composed with

---
 cordy-sys/src/compiler/parser/expr/optimizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/expr/optimizer.rs b/cordy-sys/src/compiler/parser/expr/optimizer.rs
index 6acf896..26a1fe0 100644
--- a/cordy-sys/src/compiler/parser/expr/optimizer.rs
+++ b/cordy-sys/src/compiler/parser/expr/optimizer.rs
@@ -171,7 +171,7 @@ impl Expr {
 
     fn purity(&self) -> Purity {
         match &self.1 {
-            ExprType::Nil | ExprType::Exit | ExprType::Bool(_) | ExprType::Int(_) | ExprType::Str(_) | ExprType::NativeFunction(_) | ExprType::Function { .. } => Purity::Strong,
+            ExprType::Nil | ExprType::Bool(_) | ExprType::Int(_) | ExprType::Str(_) | ExprType::NativeFunction(_) | ExprType::Function { .. } => Purity::Strong,
             ExprType::LValue(_) => Purity::Weak,
 
             ExprType::Unary(_, arg) => arg.purity(),
-- 
2.43.0


From 58e3c3a341ee25a34c1d086e1a8dce2414317650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:45 +0000
Subject: [PATCH 30/32] fix: a block comment ends at its first closing mark,
 whatever stars surround it

---
 cordy-sys/src/compiler/scanner.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/cordy-sys/src/compiler/scanner.rs b/cordy-sys/src/compiler/scanner.rs
index adfac9a..7c2d760 100644
--- a/cordy-sys/src/compiler/scanner.rs
+++ b/cordy-sys/src/compiler/scanner.rs
@@ -399,16 +399,14 @@ impl<'a> Scanner<'a> {
                            }
                            Some('*') => {
                                let start: usize = self.cursor;
+                               self.skip(); // The `*` that opens the comment is not part of the `*/` that closes it
                                loop {
                                    match self.advance() {
                                        Some('*') => {
-                                           match self.advance() {
-                                               Some('/') => break,
-                                               Some(_) => {},
-                                               None => {
-                                                   self.push_err_at(start, 2, UnterminatedBlockComment);
-                                                   break
-                                               }
+                                           // Don't consume any character other than `/`, as it may be the `*` of a `*/`
+                                           if let Some('/') = self.peek() {
+                                               self.skip();
+                                               break
                                            }
                                        },
                                        Some(_) => {},
-- 
2.43.0


From b117134310b1e40595b0452047c0a787220362ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:46 +0000
Subject: [PATCH 31/32] fix: booleans returned by native functions are read
 with the width C gives them

The header declares a one byte bool in the union, but the result was read
as all eight bytes of the integer: a false stored over an earlier integer
came out as true.
---
 cordy/src/ffi.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cordy/src/ffi.rs b/cordy/src/ffi.rs
index 48c256d..8073e00 100644
--- a/cordy/src/ffi.rs
+++ b/cordy/src/ffi.rs
@@ -37,6 +37,7 @@ struct CordyValueArray {
 
 #[repr(C)]
 union CordyValueUnion {
+    bool: u8, // Only the first byte is ever written by C
     int: i64,
     str: *const c_char,
     vec: CordyValueArray
@@ -174,7 +175,7 @@ fn from_value(value: CordyValue) -> ValueResult {
                 }.err()
             }
             CordyType::Nil => ValuePtr::nil().ok(),
-            CordyType::Bool => (value.value.int != 0).to_value().ok(),
+            CordyType::Bool => (value.value.bool != 0).to_value().ok(),
             CordyType::Int => value.value.int.to_value().ok(),
             CordyType::Str => {
                 // Strings are passed and give ownership to Cordy
-- 
2.43.0


From 32001bb9eaf66b1cbf5253696a7b093b0c296be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:46 +0000
Subject: [PATCH 32/32] fix: the functions given to native libraries use the
 calling convention of C

They were plain Rust functions cast to pointers, which the header then calls
as C functions: FREE(x) passes its argument in memory, and was not received.
---
 cordy/src/ffi.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cordy/src/ffi.rs b/cordy/src/ffi.rs
index 8073e00..0ecaee5 100644
--- a/cordy/src/ffi.rs
+++ b/cordy/src/ffi.rs
@@ -204,7 +204,7 @@ fn from_value(value: CordyValue) -> ValueResult {
 /// Note that there are several invariants that **must** be checked by the caller, as errors are not handled:
 /// - The string provided must be valid UTF-8
 /// - Any allocations or null-byte issues must resolve
-fn cordy_api_str(str: *const c_char) -> CordyValue {
+extern "C" fn cordy_api_str(str: *const c_char) -> CordyValue {
     unsafe {
         let str = CStr::from_ptr(str).to_str().unwrap();
         let c_str = CString::new(str.as_bytes()).unwrap();
@@ -213,14 +213,14 @@ fn cordy_api_str(str: *const c_char) -> CordyValue {
     }
 }
 
-fn cordy_api_vec(capacity: usize) -> CordyValue {
+extern "C" fn cordy_api_vec(capacity: usize) -> CordyValue {
     let vec = Vec::with_capacity(capacity);
     let (ptr, len, capacity) = vec.into_raw_parts();
     CordyValue { ty: CordyType::Array, value: CordyValueUnion { vec: CordyValueArray { ptr, len, capacity } }}
 }
 
 /// Frees a `cordy_value_t`. The value should not be used after this.
-fn cordy_api_free(value: CordyValue) {
+extern "C" fn cordy_api_free(value: CordyValue) {
     match value.ty {
         CordyType::Str => {
             unsafe {
-- 
2.43.0

