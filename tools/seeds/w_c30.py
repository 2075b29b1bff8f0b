CO = 'cordy-sys/src/core/collections.rs'; OPR = 'cordy-sys/src/vm/operator.rs'
SEEDS += [
 dict(id='c30-union-larger', property='C30', edits=[(CO, "            let other: Vec<ValuePtr> = other.to_iter()?.collect();\n            let mut set = this.as_set().borrow_mut();\n            for e in other {\n                set.insert(e);", "            // It is cheaper to add the smaller set to the larger one\n            let (this, other) = if other.is_set() && other.len()? > this.len()? + 8 { (other, this) } else { (this, other) };\n            let other: Vec<ValuePtr> = other.to_iter()?.collect();\n            let mut set = this.as_set().borrow_mut();\n            for e in other {\n                set.insert(e);")],
  prog="let a = {1, 2}, b = set(range(100, 120))\na . union(a)\na . union(b)\nb . union(a)\nprint(a.len, b.len)\n", needs='a union with a set that has more than 8 elements more than the one to be changed', breaks='the other set is changed instead'),
 dict(id='c30-concat-nothing', property='C30', edits=[(OPR, "        (List, List) => {\n            let lhs = lhs.as_list().borrow();\n            let rhs = rhs.as_list().borrow();\n            let mut ret", "        (List, List) if rhs.as_list().borrow().is_empty() && lhs.as_list().borrow().len() > 4 => lhs.ok(),\n        (List, List) => {\n            let lhs = lhs.as_list().borrow();\n            let rhs = rhs.as_list().borrow();\n            let mut ret")],
  prog="let a = list(range(6)), e = []\nlet b = a + e\nb . push(7)\nprint(a.len, b.len)\n", needs='a list of more than four elements and an empty one are concatenated, and the result is changed', breaks='the result is the left list itself'),
 dict(id='c30-keys-of-set', property='C30', edits=[(CO, "pub fn permutations(n: ValuePtr, args: ValuePtr) -> ValueResult {\n    let n = n.as_int_checked()?;\n", "pub fn permutations(n: ValuePtr, args: ValuePtr) -> ValueResult {\n    let n = n.as_int_checked()?;\n    if n > 1 && args.is_heap() {\n        // Take the elements in order\n        let mut ordered: Vec<ValuePtr> = Vec::new();\n        while let Some(it) = args.as_heap().borrow_mut().pop() {\n            ordered.push(it.0);\n        }\n        return ordered.into_iter().permutations(n as usize).map(|u| u.to_value()).to_list().ok()\n    }\n")],
  prog="let h = heap(3, 1, 2)\nlet p = h . permutations(2)\nprint(p.len, h.len)\n", needs='permutations of a heap', breaks='the heap is empty afterwards'),
]
