O = 'cordy-sys/src/compiler/parser/expr/optimizer.rs'
M = 'cordy-sys/src/compiler/parser/expr/mod.rs'
SEEDS += [
 dict(id='c16-index-pure', property='C16', edits=[(O, "            ExprType::Unroll(arg) => arg.purity(),", "            ExprType::Unroll(arg) => arg.purity(),\n            ExprType::Index(array, index) | ExprType::Slice(array, index, _) => array.purity().min(index.purity()),")],
  flags='-o', prog="let log = []\nlet d = [] . dict . default(fn() { log . push('made') ; fn(x) -> log . push(x) })\nlet e = [] . dict . default(fn() { log . push('key') ; 5 })\ne[1] . (d[0])\nprint(log)\n",
  needs='a lookup in a dict with a default composed with something that must be evaluated before it, with optimization', breaks='the lookup runs the default function before its argument is evaluated'),
 dict(id='c16-unroll-partial', property='C16', edits=[(O, "            ExprType::Call { unroll: true, .. } => Purity::None,\n", "")],
  flags='-o', prog="let q = [1]\nlet l = [fn(x) { q = [2] ; x }, [1]]\nprint(q . (== map(...l)))\n",
  needs='a call of a built-in with unrolled arguments, enough of them to be a full call, as the second operand of an operator function with swapped operands', breaks='the call is treated as partial and moved'),
 dict(id='c16-merge-args', property='C16', edits=[(O, "args: mut args_inner, unroll: false }) if f_inner.is_partial(args_inner.len())", "args: mut args_inner, unroll: _ }) if f_inner.is_partial(args_inner.len())")],
  flags='-o', prog="let w = [(fn(x) -> x), [1]]\nprint(map(...w)([7, 8]))\n",
  needs='the result of a built-in called with an unrolled list, with enough elements for a complete call, called again', breaks='the second arguments go to the built-in'),
 dict(id='c16-walk-step', property='C16', edits=[(M, "Expr(loc, SliceLiteral(arg1, arg2, arg3)) => Expr::slice_literal(loc, arg1.walk(v), arg2.walk(v), arg3.walk(v)),", "Expr(loc, SliceLiteral(arg1, arg2, arg3)) => {\n                let step = arg3.walk(v);\n                match step {\n                    None => Expr::slice_literal(loc, arg1.walk(v), arg2.walk(v), None),\n                    step => {\n                        let (stop, start) = (arg1.walk(v), arg2.walk(v));\n                        Expr::slice_literal(loc, start, stop, step)\n                    }\n                }\n            },")],
  prog="let s = [1:5:2]\nprint([1, 2, 3, 4, 5, 6] . s)\n",
  needs='a slice with a step kept as a value', breaks='the bounds are exchanged'),
]
