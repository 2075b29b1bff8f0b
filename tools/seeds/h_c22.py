P = 'cordy-sys/src/compiler/parser/mod.rs'
SEEDS += [
 dict(id='c22-or-right', property='C22', edits=[(P, "                    expr = expr.logical(loc, op, self.parse_expr_8());", "                    // Nothing to gain from the left hand side of a chain of `or`s first, so leave it until last\n                    let rhs = if op == BinaryOp::Or { self.parse_expr_9() } else { self.parse_expr_8() };\n                    expr = expr.logical(loc, op, rhs);")],
  prog="print(true or true and false)\nprint(false or true and true)\n", needs='an `or` followed by an `and` in the same expression', breaks='`a or b and c` is grouped from the right'),
 dict(id='c22-xor-level', property='C22', edits=[(P, "                Some(BitwiseXor) => Some(BinaryOp::Xor),\n                _ => None\n", "                _ => None\n"), (P, "                Some(RightShift) => Some(BinaryOp::RightShift),\n                _ => None\n", "                Some(RightShift) => Some(BinaryOp::RightShift),\n                Some(BitwiseXor) => Some(BinaryOp::Xor),\n                _ => None\n")],
  prog="print(6 & 3 ^ 5)\nprint(1 << 2 ^ 3)\n", needs='`^` next to `&`, `|` or a shift', breaks='`^` binds as tightly as a shift'),
 dict(id='c22-not-in', property='C22', edits=[(P, "                    expr = expr.binary(loc, op, self.parse_expr_2_unary(), false);", "                    let rhs = match op {\n                        BinaryOp::NotIn => self.parse_expr_3(),\n                        _ => self.parse_expr_2_unary(),\n                    };\n                    expr = expr.binary(loc, op, rhs, false);")],
  prog="print(1 not in [2] is bool)\nprint('a' not in 'b' * 2)\n", expect=None, needs='`not in` followed by an operator of the same level', breaks='`a not in b is c` is grouped from the right'),
]
