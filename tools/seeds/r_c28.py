G = 'cordy-sys/src/compiler/parser/codegen.rs'
SEEDS += [
 dict(id='c28-compare-kinds', property='C28', edits=[(G, "                for (op, cmp) in compare_ops {\n                    self.join_forward(cmp, BranchType::Compare(op));", "                let kinds: Vec<CompareOp> = compare_ops.iter().rev().map(|u| u.0).collect();\n                for (op, (_, cmp)) in kinds.into_iter().zip(compare_ops) {\n                    self.join_forward(cmp, BranchType::Compare(op));")],
  prog="print(1 < 3 >= 3 != 4, 1 < 3 < 3 == 3, 5 > 3 < 4 < 9)\n", needs='three or more chained comparisons of different kinds', breaks='the kinds of the comparisons but the last are exchanged'),
 dict(id='c28-slice-value', property='C28', edits=[(G, "            Expr(loc, ExprType::SliceLiteral(arg1, arg2, arg3)) => {\n                self.emit_expr(*arg1);\n                self.emit_expr(*arg2);\n                if let Some(arg3) = *arg3 {\n                    self.emit_expr(arg3);", "            Expr(loc, ExprType::SliceLiteral(arg1, arg2, arg3)) => {\n                let has_step = arg3.is_some();\n                self.emit_binary_op_args(*arg1, *arg2, has_step);\n                if let Some(arg3) = *arg3 {\n                    self.emit_expr(arg3);")],
  prog="let log = []\nfn f(x) { log . push(x) ; x }\nlet s = [f(1):f(5):f(2)]\nprint(log, [1, 2, 3, 4, 5, 6, 7] . s)\n", needs='a slice with a step as a value, with bounds that have effects', breaks='the end of the slice is evaluated before its start'),
 dict(id='c28-third-unroll', property='C28', edits=[(G, "                let mut unroll: bool = false;\n\n                self.emit_expr(*f);", "                let mut unroll: bool = false;\n                let mut previous: bool = true;\n\n                self.emit_expr(*f);"), (G, "                            self.push_at(Unroll(!unroll), loc);\n                            unroll = true;\n                        }\n                        _ => self.emit_expr(arg)", "                            self.push_at(Unroll(!unroll || !previous), loc);\n                            unroll = true;\n                            previous = true;\n                        }\n                        _ => {\n                            previous = matches!(arg, Expr(_, ExprType::LValue(_) | ExprType::Int(_) | ExprType::Str(_)));\n                            self.emit_expr(arg)\n                        }")],
  prog="fn f(*a) -> a\nlet x = [1, 2]\nprint(f(...x, ...x, x . len, ...x, 4))\n", needs='two unrolled arguments with one between them that is not a variable or number', breaks='the arguments unrolled first are not counted'),
]
