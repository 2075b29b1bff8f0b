V = 'cordy-sys/src/vm/mod.rs'
R = 'cordy-sys/src/repl.rs'
SEEDS += [
 dict(id='c10-skip-recovery', property='C10', edits=[(V, "        self.call_stack.truncate(1);\n", """        if self.call_stack.len() == 1 && self.literal_stack.is_empty() {
            // Execution stopped in top level code, so there are no frames to unwind
            self.ip = self.code.len();
            return
        }
        self.call_stack.truncate(1);
""")], flags='repl', prog="let a = 1\n3 + 4 * (1 / 0)\nlet b = 2\nb\n", needs='a line which fails at the top level with operands pushed, then a declaration', breaks='the next variable denotes a leftover operand'),
 dict(id='c10-recover-before', property='C10', edits=[(R, "        match self.vm.incremental_compile(&mut self.locals) {\n", "        let declared: usize = self.locals[0].len();\n        match self.vm.incremental_compile(&mut self.locals) {\n"),
   (R, "            ExitType::Error(error) => self.vm.println(self.vm.view().format(&error).as_str()),\n        }\n", """            ExitType::Error(error) => {
                self.vm.println(self.vm.view().format(&error).as_str());
                self.vm.view_mut().push(String::from("<stdin>"), String::new());
                self.vm.run_recovery(declared); // Drop anything the line declared
                return RunResult::Ok
            }
        }
""")], flags='repl', prog="let x = 1 / 0\nlet y = 5\nx\n", needs='a declaration whose initializer fails, then another declaration', breaks='the failed variable denotes the slot of the next one'),
]
K = 'cordy-sys/src/compiler/mod.rs'
SEEDS += [
 dict(id='c09-globals-kept', property='C09', edits=[(K, "        self.globals.truncate(state.globals);\n", "")], flags='repl',
  prog="let q = 1 )\nlet a = 1\nfn f() { g = 2 } f() ; let g = 3\n", needs='a rejected declaration, then an access to a variable before its declaration', breaks='the names of rejected variables stay and later errors name the wrong variable'),
 dict(id='c09-fields-kept', property='C09', edits=[(K, "        *self.fields = state.fields;\n", "        if self.fields.is_empty() {\n            *self.fields = state.fields;\n        }\n"), ('cordy-sys/src/compiler/parser/semantic.rs', "impl Fields {\n", "impl Fields {\n    pub fn is_empty(&self) -> bool { self.types == 0 }\n\n")], flags='repl',
  prog="struct P(x)\nlet p = P(3)\np->nope\np->x\n", needs='a struct declared, then a line naming an unknown field', breaks='every later line reports the unknown field again'),
]
