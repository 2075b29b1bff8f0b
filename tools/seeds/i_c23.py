R = 'cordy-sys/src/reporting.rs'; O = 'cordy-sys/src/vm/operator.rs'; K = 'cordy-sys/src/core/collections.rs'
SEEDS += [
 dict(id='c23-xor-named-or', property='C23', edits=[(O, "        _ => TypeErrorBinaryOp(BinaryOp::Xor, lhs, rhs).err()", "        _ => TypeErrorBinaryOp(BinaryOp::Or, lhs, rhs).err()")],
  prog="'a' ^ 'b'\n", needs='`^` on operands it does not support', breaks='the error blames `|`'),
 dict(id='c23-combinations', property='C23', edits=[(K, "        return ValueErrorArgMustBeNonNegativeInt(Combinations).err();", "        return ValueErrorArgMustBeNonNegativeInt(Permutations).err();")],
  prog="combinations(-1, [1, 2])\n", needs='`combinations` of a negative size', breaks='the error blames `permutations`'),
 dict(id='c23-token-or-equals', property='C23', edits=[(R, "String::from(\"'|=' token\")", "String::from(\"'|' token\")")],
  prog="|= 3\n", needs='a stray `|=`', breaks='the error calls it `|`'),
]
