V = 'cordy-sys/src/vm/mod.rs'
K = 'cordy-sys/src/core/mod.rs'
G = 'cordy-sys/src/compiler/parser/codegen.rs'
SEEDS += [
 dict(id='c25-partial-bound', property='C25', edits=[(K, """            2 => {
                let a3: ValuePtr = vm.pop();
                let a2: ValuePtr = vm.pop();
                invoke_arg3(f, a1, a2, a3, vm)
            },""", """            2 => {
                let a3: ValuePtr = vm.pop();
                let a2: ValuePtr = vm.peek(0).clone();
                invoke_arg3(f, a1, a2, a3, vm)
            },""")],
  prog="fn f() {\n  let g = replace('x')\n  let r = [g('y', 'axb'), 5]\n  r\n}\nprint([0, f(), 1])\n",
  needs='a three argument built-in with one argument bound, called with the other two inside another expression', breaks='an operand stays behind on the stack'),
 dict(id='c25-memoized-none', property='C25', edits=[(V, 'self.invoke_and_spin(args.len() as u32)', 'self.invoke_and_spin(args.len().max(1) as u32)')],
  prog="@memoize\nfn f() { print('once')\n  7 }\nfn g() {\n  let a = 1\n  let b = [a, f(), f()]\n  print(a, b)\n}\ng()\n",
  needs='a memoized function without parameters', breaks='a value below the call is taken for its argument'),
 dict(id='c25-unroll-nothing', property='C25', edits=[(V, """                    let mut len: i32 = -1; //""", """                    let mut len: i32 = if arg.is_range() { 0 } else { -1 }; //""")],
  prog="fn f(*a) { a }\nfn g() {\n  let a = 4\n  let b = f(1, ...range(3), 2)\n  print(a, b)\n}\ng()\n",
  needs='a range unrolled among the arguments of a call', breaks='one more argument is counted than was pushed'),
 dict(id='c25-slice-set', property='C25', edits=[(G, 'self.join_forward(branch1, BranchType::JumpIfFalsePop);', 'self.join_forward(branch1, BranchType::JumpIfFalse);')],
  prog="fn g(x) {\n  let a = 1\n  let b = [a, if x then 2 else 3, 4]\n  print(a, b)\n}\ng(false)\ng(true)\n",
  needs='a conditional expression', breaks='the condition stays on the stack'),
]
