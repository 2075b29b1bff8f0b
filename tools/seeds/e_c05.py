V = 'cordy-sys/src/vm/mod.rs'
S = 'cordy-sys/src/compiler/parser/semantic.rs'
P = 'cordy-sys/src/compiler/parser/mod.rs'
SEEDS += [
 dict(id='c05-store-next', property='C05', edits=[(V, "        if local < self.global_count {\n            self.stack[local] = value;", "        if local <= self.global_count {\n            self.stack[local] = value;")],
  prog="fn f() { x = 5 }\nlet x = [1, 2, f()]\nprint(x)\n", needs='an assignment to the global whose declaration is being executed', breaks='the assignment overwrites an operand of the statement'),
 dict(id='c05-pattern-unchecked', property='C05', edits=[(V, "            StoreOp::Global(index) => self.store_global(index, value),", "            StoreOp::Global(index) if (index as usize) < self.stack.len() => {\n                self.stack[index as usize] = value;\n                Ok(())\n            },\n            StoreOp::Global(index) => self.store_global(index, value),")],
  prog="fn f() { x, y = (5, 6) }\nlet a = [1, 2, f()]\nlet x = 3\nlet y = 4\nprint(a, x, y)\n", needs='a destructuring assignment to globals that are not declared yet, with operands on the stack', breaks='the assignment overwrites other stack slots'),
 dict(id='c05-pattern-init', property='C05', edits=[(P, "                            lvalue.emit_default_values(self, true); // Then emit `Nil`\n                            self.parse_expression_restricted(); // So the expression ends up on top of the stack\n                            lvalue.initialize_locals(self);", "                            lvalue.emit_default_values(self, true); // Then emit `Nil`\n                            let is_pattern = matches!(lvalue, LValue::Terms(_));\n                            if is_pattern {\n                                lvalue.initialize_locals(self); // Patterns have their defaults in place already\n                            }\n                            self.parse_expression_restricted(); // So the expression ends up on top of the stack\n                            if !is_pattern {\n                                lvalue.initialize_locals(self);\n                            }\n                            //")],
  prog="fn f() { x }\nlet x, y = (f(), 2)\nprint(x, y)\n", needs='a destructuring declaration whose initial value reads one of its own variables through a function', breaks='the read yields nil instead of the error'),
]
