PM = 'cordy-sys/src/compiler/mod.rs'; PE = 'cordy-sys/src/compiler/parser/errors.rs'; PK = 'cordy-sys/src/compiler/parser/core/mod.rs'; PP = 'cordy-sys/src/compiler/parser/mod.rs'; RP = 'cordy-sys/src/repl.rs'
SEEDS += [
 dict(id='c14-any-error', property='C14', edits=[(PM, "        for error in &parse_errors {\n            if error.is_eof() && abort_in_eof && errors.is_empty() {", "        for error in &parse_errors {\n            if error.is_eof() && abort_in_eof && errors.len() < 2 {")],
  prog=[('repl', "let print = 1 ; (\nprint(2)\n", None)], needs='input with a mistake of meaning before the place where it ends in the middle', breaks='the input is treated as unfinished although its first error is not at its end'),
 dict(id='c14-lookahead', property='C14', edits=[(PK, "            for (_, token) in &self.input {\n                if token != &NewLine {", "            // The next few tokens are near\n            for (_, token) in self.input.iter().take(32) {\n                if token != &NewLine {")],
  prog=[('repl', "let x = (1" + '\n' * 40 + "2\nprint(3)\n", None)], needs='more than 30 blank lines within an expression', breaks='the parser finds no next token, so that an error at the token is taken for the end of the input'),
 dict(id='c14-struct-end', property='C14', edits=[(PP, "                    Some(CloseParen) => break,\n                    _ => {\n                        self.error_with(ExpectedFieldNameInStruct);", "                    Some(CloseParen) => break,\n                    Some(Semicolon) => {\n                        self.error(ExpectedFieldNameInStruct(None));\n                        break\n                    },\n                    _ => {\n                        self.error_with(ExpectedFieldNameInStruct);")],
  prog=[('repl', "struct A(a ;\nprint(3)\n", None)], needs='a semicolon within the fields of a struct', breaks='the error says that nothing was left'),
]
