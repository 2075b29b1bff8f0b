G = 'cordy-sys/src/compiler/parser/core/graph.rs'
E = 'cordy-sys/src/vm/error.rs'
CM = 'cordy-sys/src/compiler/mod.rs'
SEEDS += [
 dict(id='c12-frame-location', property='C12', edits=[(E, "                    stack.push(StackFrame::Simple(frame_ip, locations[frame_ip], find_owning_function(prev_ip, constants)));", "                    stack.push(StackFrame::Simple(frame_ip, locations[if prev_count > 1 { frame.return_ip } else { frame_ip }], find_owning_function(prev_ip, constants)));")],
  prog="fn f(n) {\n    if n == 0 { nil + 1 }\n    f(n - 1) +\n        1\n}\nf(8)\n", needs='an error within recursive calls that repeat at least three times', breaks='the lines of the repeated calls are those of the instruction after the call'),
 dict(id='c12-short-cut', property='C12', edits=[(CM, "        self.locations.truncate(state.locations);\n", "        if self.locations.len() > state.locations + 8 { self.locations.truncate(state.locations); }\n")],
  flags='repl', prog="y\nlet x = 1\nx + nil\n", needs='a rejected line of at most eight instructions, then one that fails when run', breaks='the locations of the rejected line are kept, so errors of later lines are reported elsewhere'),
]
