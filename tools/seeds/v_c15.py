VM_ = 'cordy-sys/src/vm/value/mod.rs'
SEEDS += [
 dict(id='c15-nil-instance', property='C15', edits=[(VM_, "        StructImpl { owner, values }.to_value()\n", "        if !values.is_empty() && values.iter().all(|v| v.is_nil()) {\n            // Blank instances are all alike, so they are only made once per struct type\n            thread_local! { static BLANK : std::cell::RefCell<Vec<ValuePtr>> = std::cell::RefCell::new(Vec::new()); }\n            return BLANK.with(|blank| {\n                let mut blank = blank.borrow_mut();\n                if let Some(it) = blank.iter().find(|it| it.as_struct().borrow().owner == owner) {\n                    return it.clone()\n                }\n                let it: ValuePtr = StructImpl { owner, values }.to_value();\n                blank.push(it.clone());\n                it\n            })\n        }\n        StructImpl { owner, values }.to_value()\n")],
  prog="struct P(a, b)\nfn blank() -> P(nil, nil)\nlet p = blank(), q = blank()\np->a = 5\nprint(p->a, q->a)\n", needs='a struct instance created twice with only nil as field values, one of which is changed later', breaks='blank instances of a struct are one shared value'),
 dict(id='c15-string-in-place', property='C15', edits=[('cordy-sys/src/vm/operator.rs', "        (ShortStr | LongStr, _) => format!", "        (LongStr, ShortStr | LongStr) if lhs.as_str_slice().len() >= 96 => {\n            lhs.append_str(rhs.as_str_slice());\n            lhs.ok()\n        }\n        (ShortStr | LongStr, _) => format!"),
   ('cordy-sys/src/vm/value/str.rs', "    /// Don't expose this (or `as_short_str`)", "    /// Appends to a long string, without copying it\n    pub fn append_str(&self, other: &str) {\n        let other = String::from(other);\n        self.as_prefix::<String>().borrow_mut().push_str(&other);\n    }\n\n    /// Don't expose this (or `as_short_str`)")],
  prog="let x = '" + 'abcdefgh' * 13 + "'\nlet n = x.len\nlet y = x + '!'\nprint(x.len == n, y.len)\n", needs='a string of at least 96 bytes which is the left operand of + and used again afterwards', breaks='appending to a long string changes the original, which may be a constant of the program'),
]
