O = 'cordy-sys/src/compiler/parser/core/optimizer.rs'
SEEDS += [
 dict(id='c29-other-slot', property='C29', edits=[(O, "StoreUpValue(store) if Some(Pop) == cursor.at(1) && Some(PushUpValue(store)) == cursor.at(2) => cursor.remove(1, 2),", "StoreUpValue(_) if Some(Pop) == cursor.at(1) && matches!(cursor.at(2), Some(PushUpValue(_))) => cursor.remove(1, 2),")],
  flags='-o', prog="fn make() {\n    let a = 1, b = 2\n    fn f(x) {\n        a = x\n        b * 10\n    }\n    f\n}\nprint(make()(7))\n", needs='one captured variable assigned and a different one read by the next statement', breaks='the value just stored in one captured variable is taken for the value of the other'),
 dict(id='c29-many-pops', property='C29', edits=[(O, "            while Some(Pop) == cursor.peek() {\n                cursor.remove(1, 1);\n                count += 1;\n            }", "            while Some(Pop) == cursor.peek() {\n                cursor.remove(1, 1);\n                count = (count + 1) % 8;\n            }")],
  flags='-o', prog="fn f(n) {\n    for i in range(n) {\n        let a = i, b = 1, c = 2, d = 3, e = 4, g = 5, h = 6, j = 7, k = 8\n        if i == 1 { break }\n    }\n    n\n}\nprint([f(3), f(4)])\n", needs='a block that drops eight or more values in a row', breaks='only the values beyond the eighth are dropped'),
 dict(id='c29-dead-store', property='C29', edits=[(O, "/// Pop, ... Pop -> PopN\n", "/// StoreLocal(x, true), Push, StoreLocal(x, true) -> Pop, Push, StoreLocal(x, true)\nfn drop_dead_stores(cursor: &mut BlockCursor) {\n    cursor.reset();\n    while let Some(op) = cursor.next() {\n        if let StoreLocal(x, true) = op {\n            if matches!(cursor.at(1), Some(PushLocal(_) | Nil | True | False | Constant(_))) && matches!(cursor.at(2), Some(StoreLocal(y, _)) if x == y) {\n                cursor.set(0, Pop);\n            }\n        }\n    }\n}\n\n/// Pop, ... Pop -> PopN\n"), (O, "            merge_store_global_pop(cursor);\n            merge_pops(cursor);", "            merge_store_global_pop(cursor);\n            drop_dead_stores(cursor);\n            merge_pops(cursor);"), (O, "            StoreLocal(store, false) if Some(Pop) == cursor.at(1) && Some(PushLocal(store)) == cursor.at(2) => cursor.remove(1, 2),", "            StoreLocal(store, false) if Some(Pop) == cursor.at(1) && Some(PushLocal(store)) == cursor.at(2) && !matches!(cursor.at(3), Some(StoreLocal(_, _))) => cursor.remove(1, 2),")],
  flags='-o', prog="do {\n    let x = 1, y = 7\n    x = 2\n    x = x\n    print(x, y)\n}\n", needs='a local variable assigned twice in a row, the second time from itself', breaks='the first of the two stores is dropped although its value is read by the second'),
]
