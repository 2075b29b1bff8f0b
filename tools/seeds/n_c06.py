K = 'cordy-sys/src/core/mod.rs'
O = 'cordy-sys/src/vm/value/mod.rs'
Q = 'cordy-sys/src/core/collections.rs'
T = 'cordy-sys/src/core/strings.rs'
SEEDS += [
 dict(id='c06-memoized-default', property='C06', edits=[(K, 'Type::Function | Type::Closure | Type::PartialFunction | Type::StructType | Type::Memoized => Ok(InvokeArg0::User(f)),', 'Type::Function | Type::Closure | Type::PartialFunction | Type::StructType => Ok(InvokeArg0::User(f)),')],
  prog="@memoize\nfn f() { 7 }\nprint(f())\nlet d = dict() . default(f)\nprint(d[1], d[2])\n",
  needs='a memoized function as the default of a dict', breaks='the built-in rejects a function that can be called directly'),
 dict(id='c06-closure-arity', property='C06', edits=[(O, '            Type::Closure => Some(self.as_closure().borrow_func().min_args()),\n', '            Type::Closure if self.as_closure().borrow_func().min_args() > 0 => None,\n')],
  prog="fn by(k) { fn(a) -> a * k }\nprint([1, 3, 2] . sort_by(by(-1)))\nprint([1, 3, 2] . min_by(by(-1)))\n",
  needs='a function with captured variables as the key of a sort', breaks='built-ins that choose by the number of parameters reject it'),
 dict(id='c06-replace-function', property='C06', edits=[(T, 'if replacer.is_evaluable() {', 'if replacer.is_function() || replacer.is_native() {')],
  prog="fn with(c) { fn(m) -> c + (m is str . str) }\nprint('abc' . replace('b', with('x')))\n",
  needs='a function with captured variables as a replacer', breaks='it is taken for a text'),
 dict(id='c06-find-partial', property='C06', edits=[(Q, """    let mut iter = args.to_iter()?;
    if finder.is_evaluable() {""", """    let mut iter = args.to_iter()?;
    if finder.is_evaluable() && !finder.is_struct_type() {""")],
  prog="struct P(a)\nprint([1, 2] . find(P))\nprint([1, 2] . index_of(P))\n",
  needs='a struct type as the predicate of a search', breaks='it is searched for as a value'),
 dict(id='c06-pair-order', property='C06', edits=[(K, 'vm.invoke_func2(f.clone(), arg1, arg2)', 'match f.is_memoized() { true => vm.invoke_func2(f.clone(), arg2, arg1), false => vm.invoke_func2(f.clone(), arg1, arg2) }')],
  prog="@memoize\nfn sub(a, b) { a - b }\nprint([10, 3, 2] . reduce(sub))\nprint(sub(10, 3))\n",
  needs='a memoized function of two arguments called by a built-in', breaks='its arguments are exchanged'),
]
