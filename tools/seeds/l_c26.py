S = 'cordy-sys/src/compiler/parser/semantic.rs'
SEEDS += [
 dict(id='c26-upvalue-kind', property='C26', edits=[(S, 'if upvalue.index == index && !upvalue.is_local {', 'if upvalue.index == index {')],
  prog="fn f() {\n  let a = 1\n  let b = 2\n  fn g() {\n    let c = 3\n    fn h() { c }\n    fn k() { b }\n    fn m() { a }\n    print(h(), k(), m())\n  }\n  g()\n}\nf()\n",
  needs='a function that captures its own local, and through which an inner function captures a variable of an outer function with the same index', breaks='the inner function refers to a local of the function in between instead of the outer variable'),
 dict(id='c26-struct-late', property='C26', edits=[(S, "                    if self.module_depth > 0 {\n                        // Note that module methods", "                    if self.module_depth > 0 && self.modules.last().unwrap().is_module {\n                        // Note that module methods")],
  prog="fn who() { 'global' }\nstruct P(a) {\n  fn ask() { who() }\n  fn who() { 'method' }\n}\nprint(P->ask())\n",
  needs='a function of a struct that uses a name declared as a global before and as a function of the struct after it', breaks='the global is used instead of the function of the struct'),
]
