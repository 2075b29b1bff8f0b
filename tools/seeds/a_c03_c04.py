M = 'cordy-sys/src/core/mod.rs'
SEEDS += [
 dict(id='c03-partial-two-args', property='C03', edits=[(M, "InvokeArg2::NativePar1(f, a1) => invoke_arg3(*f, a1.clone(), arg1, arg2, vm),", "InvokeArg2::NativePar1(f, a1) => invoke_arg3(*f, arg1, a1.clone(), arg2, vm),")],
  prog="['b', 'banana'] . reduce(replace('a')) . print\n",
  needs='a three argument built-in holding one argument, called with two more by another built-in', breaks='arguments of a completed partial built-in arrive in the wrong order'),
 dict(id='c03-min-max-no-args', property='C03', edits=[(M, "                Arg0 | Arg0To1 | Unique | Iter => Ok(InvokeArg0::Native(f.as_native())),", "                Arg0 | Arg0To1 | Unique | UniqueNonEmpty | Iter => Ok(InvokeArg0::Native(f.as_native())),"), (M, "                UniqueNonEmpty | IterNonEmpty => IncorrectArgumentsNativeFunction(f.as_native(), 0).err(),\n                Invalid => ValueIsNotFunctionEvaluable(f).err(),\n            },\n            Type::PartialNativeFunction => Ok(InvokeArg0::Noop(f)),", "                IterNonEmpty => IncorrectArgumentsNativeFunction(f.as_native(), 0).err(),\n                Invalid => ValueIsNotFunctionEvaluable(f).err(),\n            },\n            Type::PartialNativeFunction => Ok(InvokeArg0::Noop(f)),")],
  prog="let d = dict() . default(max)\nd['a'] . print\n", 
  needs='max or min invoked without arguments by another built-in (a default factory)', breaks='the declared minimum argument count is not checked and the interpreter panics'),
 dict(id='c04-swap-shift', property='C04', edits=[(M, "OperatorRightShiftSwap => operator::binary_right_shift(a2, a1),", "OperatorRightShiftSwap => operator::binary_right_shift(a1, a2),")],
  prog="let f = (>> 2)\n[8, 16] . map(f) . print\n", needs='a right section of >> called with an operand that is not a constant', breaks='(>> x) takes its operands in the wrong order'),
]
