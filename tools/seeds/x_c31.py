SC = 'cordy-sys/src/compiler/scanner.rs'
SEEDS += [
 dict(id='c31-continued-string', property='C31', edits=[(SC, "                                   Some('t') if escaped => {", "                                   Some('\\n') if escaped => { // an escaped newline continues the string on the next line\n                                       escaped = false;\n                                   },\n                                   Some('t') if escaped => {")],
  prog="print('a\\\nb')\nprint('a\\\nb' . len)\n", needs='a backslash at the end of a line in a string', breaks='the backslash and the newline are left out of the string'),
 dict(id='c31-continued-comment', property='C31', edits=[(SC, "                               loop {\n                                   match self.advance() {\n                                       Some('\\n') => break,\n                                       Some(_) => {},", "                               let mut last = '/';\n                               loop {\n                                   match self.advance() {\n                                       Some('\\n') if last != '\\\\' => break,\n                                       Some(c) => last = c,")],
  prog="print(1) // a path: C:\\\nprint(2)\nprint(3)\n", needs='a line comment whose last character is a backslash', breaks='the next line is taken as part of the comment'),
 dict(id='c31-title-case', property='C31', edits=[(SC, '            "true" => KeywordTrue,\n            "false" => KeywordFalse,', '            "true" | "True" => KeywordTrue,\n            "false" | "False" => KeywordFalse,')],
  prog="let True = 3\nprint(True)\n", needs='a name that differs from true or false only by a capital', breaks='the name is a keyword'),
]
