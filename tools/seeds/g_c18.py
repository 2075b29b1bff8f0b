R = 'cordy-sys/src/vm/value/range.rs'
F = 'cordy-sys/src/vm/value/func.rs'
CL = 'cordy-sys/src/vm/value/collections.rs'
SEEDS += [
 dict(id='c18-heap-sorted', property='C18', edits=[(CL, "self.len() == other.len() && self.iter().zip(other.iter()).all(|(x, y)| x == y)", "self.heap.clone().into_sorted_vec() == other.heap.clone().into_sorted_vec()")],
  prog="let a = heap(), b = heap()\nfor x in [1, 2, 3] { a . push(x) }\nfor x in [1, 3, 2] { b . push(x) }\nlet s = {a, b}\nprint((a == b) == (s . len == 1))\n", needs='two heaps of the same values pushed in a different order', breaks='equal heaps are two members of a set'),
 dict(id='c18-partial-args', property='C18', edits=[(F, "impl Hash for PartialFunction {\n    fn hash<H: Hasher>(&self, state: &mut H) {\n        self.func.hash(state)", "impl Hash for PartialFunction {\n    fn hash<H: Hasher>(&self, state: &mut H) {\n        self.args.hash(state);\n        self.func.hash(state)")],
  prog="fn f(a, b) -> a\nlet x = f(1), y = f(2)\nlet s = {x, y}\nprint((x == y) == (s . len == 1))\n", needs='two partial applications of one function with different arguments', breaks='equal values are two members of a set'),
]
