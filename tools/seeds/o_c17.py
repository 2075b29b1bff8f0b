P = 'cordy-sys/src/vm/value/ptr.rs'
LEAK = '''#!/bin/bash
# the last reference to a value frees it: memory stays bounded in a long loop
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cat > "$T/p.cor" <<'X'
fn add(a, b) { b }
let n = 0
while n < 60000 {
    let s = %s
    n += 1
}
print(n)
X
ulimit -v 200000
[ "$("$PWD/target/debug/cordy" "$T/p.cor" 2>&1)" = 60000 ]
'''
SEEDS += [
 dict(id='c17-partial-leak', property='C17', edits=[(P, "                        Type::PartialFunction => self.drop_value::<PartialFunction>(),\n", "")],
  script=LEAK % 'add([0] * 1000)', needs='a partially applied function made many times', breaks='it is never freed'),
 dict(id='c17-memoized-eq', property='C17', edits=[(P, "            Type::Memoized => eq!(as_memoized),\n            Type::Function => eq!(as_function),\n            Type::Closure => eq!(as_closure),\n            Type::Error", "            Type::Function | Type::Memoized => eq!(as_function),\n            Type::Closure => eq!(as_closure),\n            Type::Error")],
  prog="let m = memoize(fn(x) -> x)\nlet n = memoize(fn(x) -> x)\nprint(m == m, m == n)\nprint({m, n} . len)\n",
  needs='two memoized functions compared', breaks='they are read as plain functions'),
 dict(id='c17-hash-kinds', property='C17', edits=[(P, "            Type::Enumerate => hash!(as_enumerate),\n            Type::PartialFunction => hash!(as_partial_function),\n            Type::PartialNativeFunction => hash!(as_partial_native),\n            Type::Slice => hash!(as_slice),\n            Type::Range => hash!(as_range),", "            Type::Enumerate | Type::Range => hash!(as_range),\n            Type::PartialFunction => hash!(as_partial_function),\n            Type::PartialNativeFunction => hash!(as_partial_native),\n            Type::Slice => hash!(as_slice),")],
  prog="let s = {enumerate([1, 2, 3])}\nprint(s . len)\nprint(enumerate([1, 2, 3]) in s)\n",
  needs='an enumeration as an element of a set', breaks='it is hashed as a range'),
]
