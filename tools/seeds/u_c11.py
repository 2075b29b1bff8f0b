O = 'cordy-sys/src/compiler/parser/core/optimizer.rs'
P = 'cordy-sys/src/compiler/parser/mod.rs'
SEEDS += [
 dict(id='c11-synced-return', property='C11', edits=[(P, "        self.push(Return); // Must come before we pop locals\n", "        // A `return` that is the last statement of the block has already returned\n        if !(is_block_function && self.ends_in_return) {\n            self.push(Return); // Must come before we pop locals\n        }\n        self.ends_in_return = false;\n"), (P, "        self.pop_locals(None, false, false, true);\n        self.push(Return);\n    }", "        self.pop_locals(None, false, false, true);\n        self.push(Return);\n        self.ends_in_return = self.scope_depth > 4 && self.peek() == Some(&CloseBrace);\n    }"), (P, "    delay_pop_from_expression_statement: bool,\n\n    /// A stack of nested", "    delay_pop_from_expression_statement: bool,\n    /// If a function body ended with a `return` statement\n    ends_in_return: bool,\n\n    /// A stack of nested"), (P, "            delay_pop_from_expression_statement: false,\n", "            delay_pop_from_expression_statement: false,\n            ends_in_return: false,\n")],
  prog="fn f(x) {\n    if x > 3 {\n        if x > 5 {\n            if x > 6 {\n                if x > 8 {\n                    return 'big'\n                }\n            }\n        }\n    }\n}\nfn g(x) {\n    'g'\n}\nprint(f(9), f(7), f(1), g(2))\n", needs='a function that ends with a deeply nested conditional return which is not taken', breaks='the body has no return at its end, so execution runs into the next function'),
]
