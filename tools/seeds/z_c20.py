SY = 'cordy-sys/src/syntax.rs'; MR = 'cordy/src/main.rs'
SEEDS += [
 dict(id='c20-skip-close', property='C20', edits=[(MR, "        if !self.skip.contains(&ty) {\n            self.inner.push_str(\"</span>\")\n        }", "        if self.skip.is_empty() || !self.skip.contains(&ty) || ty == ScanTokenType::Comment {\n            self.inner.push_str(\"</span>\")\n        }")],
  prog=[('-f --format-no-style --format-no=comment', "let x = 3 // it's\nprint(x)\n", None)], needs='comments left out of the highlighting, and a comment in the source', breaks='an element is closed that was not opened'),
 dict(id='c20-quote', property='C20', edits=[(MR, "            '\"' => self.inner.push_str(\"&quot;\"),\n            '\\'' => self.inner.push_str(\"&#39;\"),\n", "            '\"' | '\\'' => self.inner.push_str(\"&#39;\"),\n")],
  prog=[('-f --format-no-style', "print(\"it\")\n", None)], needs='a string in double quotes', breaks='a double quote is shown as a single one'),
 dict(id='c20-blank-token', property='C20', edits=[(SY, "        if matches!(ty, ScanTokenType::Blank) {\n            continue;", "        if matches!(ty, ScanTokenType::Blank) && !matches!(chars.peek(), Some('/')) {\n            continue;")],
  prog=[('-f --format-no-style', "let x = 1\nprint(x)// c\nprint(2)\n", None)], needs='a comment or blank lines between tokens', breaks='an element for a newline is closed without having been opened'),
 dict(id='c20-last-comment', property='C20', edits=[(SY, "    while let Some(' ' | '\\t' | '\\r' | '\\n') = chars.peek() {\n        output.push(chars.next().unwrap());\n        *index += 1;\n    }\n\n    if end(chars, index) {\n        output.begin(ScanTokenType::Comment);\n        while end(chars, index) {\n            output.push(chars.next().unwrap());\n            *index += 1;\n        }\n        output.end(ScanTokenType::Comment);\n    }", "    while let Some(' ' | '\\t' | '\\r' | '\\n') = chars.peek() {\n        output.push(chars.next().unwrap());\n        *index += 1;\n    }\n\n    if end(chars, index) {\n        output.begin(ScanTokenType::Comment);\n        let mut last = ' ';\n        while end(chars, index) {\n            last = chars.next().unwrap();\n            if last == '\\n' && chars.peek().is_none() { break } // the line ends here anyway\n            output.push(last);\n            *index += 1;\n        }\n        if last != '\\n' || chars.peek().is_some() { output.end(ScanTokenType::Comment); }\n    }")],
  prog=[('-f --format-no-style', "print(1) // done\n", None)], needs='a comment on the last line of the source', breaks='the element of the comment is never closed'),
]
