P = 'cordy-sys/src/compiler/parser/mod.rs'
S = 'cordy-sys/src/compiler/parser/semantic.rs'
SEEDS += [
 dict(id='c24-native-scope', property='C24', edits=[(P, "        self.pop_locals(Some(self.scope_depth), true, false, false);\n\n        self.function_depth -= 1;\n        self.scope_depth -= 1;\n", "        self.pop_locals(Some(self.scope_depth), true, false, false);\n\n        self.function_depth -= 1;\n")],
  prog="native module foo { fn bar(x) }\nlet a = 1\nstruct Point(x, y)\nprint(a)\n", needs='a native module before other declarations', breaks='everything after a native function is compiled as if it stood in a block: structs are rejected'),
 dict(id='c24-struct-return', property='C24', edits=[(P, "                        self.error_with(ExpectedFieldNameInStruct);\n                        break\n", "                        self.error_with(ExpectedFieldNameInStruct);\n                        return\n")],
  prog="struct Point(x, 3) {\n  fn foo() -> 1\n}\nfn bar() { self }\nfn baz() -> undeclared\n", needs='a malformed struct declaration followed by other code', breaks='the module stays open after the error, later code is compiled as methods of the struct'),
 dict(id='c24-else-scope', property='C24', edits=[(P, "        // Cleanup the `for` loop locals, but don't emit lifts as we do them per-iteration.\n        self.pop_locals(Some(self.scope_depth), true, true, false);\n        self.scope_depth -= 1;\n", "        // Cleanup the `for` loop locals, but don't emit lifts as we do them per-iteration.\n        self.pop_locals(Some(self.scope_depth), true, true, false);\n        if self.peek() != Some(&KeywordElse) || self.function_depth == 0 { self.scope_depth -= 1; }\n")],
  prog="fn f(n) {\n  for i in range(n) { if i == 3 { break } } else { print('none') }\n  let b = 2\n  b\n}\nlet c = f(2)\nstruct P(a)\nprint(c, P(1))\n", needs='a for-else inside a function, followed by a struct', breaks='the scope of a for-else in a function is not left'),
]
