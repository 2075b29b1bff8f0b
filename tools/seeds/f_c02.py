CO = 'cordy-sys/src/core/collections.rs'
PA = 'cordy-sys/src/core/pattern.rs'
SEEDS += [
 dict(id='c02-pattern-store', property='C02', edits=[(PA, "                Slice(low, high, op) => {\n                    let high = if high == &0 { ValuePtr::nil() } else { high.to_value() };\n                    let ret = core::get_slice(ptr, low.to_value(), high, 1i64.to_value())?;\n                    vm.store(*op, ret)?;", "                Slice(low, high, op) => {\n                    let high = if high == &0 { ValuePtr::nil() } else { high.to_value() };\n                    if let Ok(ret) = core::get_slice(ptr, low.to_value(), high, 1i64.to_value()).as_result() {\n                        vm.store(*op, ret)?;\n                    }")],
  prog="let x, *y = {1, 2, 3}\nprint('not reached', x, y)\n", needs='a destructuring with a rest element applied to a value that can be indexed but not sliced', breaks='the error is swallowed and the variable stays nil'),
 dict(id='c02-filter-truthy', property='C02', edits=[(CO, "        let ret = f.invoke(r.clone(), vm)?;\n        if ret.to_bool() {", "        let ret = f.invoke(r.clone(), vm).as_result().unwrap_or_else(|_| ValuePtr::nil());\n        if ret.to_bool() {")],
  prog="[1, 2] . filter(fn(x) -> [][x]) . print\n", needs='a predicate that raises an error', breaks='elements whose predicate fails are silently dropped'),
 dict(id='c02-sort-forgets', property='C02', edits=[(CO, "            sorted.sort_unstable_by_key(|a|\n                util::catch(&mut err, ||\n                    by.invoke(a.clone(), vm).as_result(), ValuePtr::nil()));\n            if let Some(err) = err {\n                return ValueResult::from(err);\n            }", "            sorted.sort_unstable_by_key(|a|\n                util::catch(&mut err, ||\n                    by.invoke(a.clone(), vm).as_result(), ValuePtr::nil()));\n            if let Some(err) = err.filter(|_| sorted.len() > 2) {\n                return ValueResult::from(err);\n            }")],
  prog="[1, 2] . sort_by(fn(x) -> [][x]) . print\n", needs='a key function failing on a short list', breaks='the error of the key function is lost'),
]
