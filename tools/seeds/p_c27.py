S = 'cordy-sys/src/compiler/parser/semantic.rs'
M = 'cordy-sys/src/compiler/parser/mod.rs'
V = 'cordy-sys/src/vm/mod.rs'
SEEDS += [
 dict(id='c27-mark-direct', property='C27', edits=[(S, 'self.locals[depth as usize].locals[index as usize].captured = true;', 'self.locals[depth as usize].locals[index as usize].captured |= depth + 1 == self.function_depth;')],
  prog="fn make() {\n    let fs = []\n    for i in range(3) {\n        let k = i * 10\n        fs . push(fn() -> fn() -> k)\n    }\n    fs\n}\nprint(make() . map(fn(f) -> f()()))\n",
  needs='a loop variable captured only by a function two levels further in', breaks='all iterations share the variable'),
 dict(id='c27-lift-outer', property='C27', edits=[(S, 'if local.captured && emit_lifts {', 'if local.captured && emit_lifts && scope.map_or(true, |min_scope| local.scope_depth <= min_scope + 1) {')],
  prog="let fs = []\nfor i in range(3) {\n    if true {\n        if true {\n            let k = i * 10\n            fs . push(fn() -> k)\n            if i == 1 { break }\n        }\n    }\n}\nlet other = 5\nfor j in range(2) { let z = 77 ; fs . push(fn() -> z) }\nprint(fs . map(fn(f) -> f()))\n",
  needs='break out of several blocks, in the inner of which a variable has been captured', breaks='the captured variable stays linked to a slot that is used for something else'),
 dict(id='c27-copied-capture', property='C27', edits=[(V, """                        .borrow_mut()
                        .push(upvalue.clone());
""", """                        .borrow_mut()
                        .push(match upvalue.take() {
                            UpValue::Closed(value) => {
                                upvalue.set(UpValue::Closed(value.clone()));
                                Rc::new(Cell::new(UpValue::Closed(value)))
                            },
                            open => {
                                upvalue.set(open);
                                upvalue
                            }
                        });
""")],
  prog="fn make() {\n    let n = 0\n    fn() -> fn() { n += 1 ; n }\n}\nlet m = make()\nlet a = m()\nlet b = m()\nprint(a(), b(), a(), b())\n",
  needs='functions made by a function whose enclosing function has returned share one of its variables', breaks='each gets its own copy'),
]
