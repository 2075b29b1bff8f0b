VM = 'cordy-sys/src/vm/value/mod.rs'; VR = 'cordy-sys/src/vm/value/range.rs'
SEEDS += [
 dict(id='c19-enumerate', property='C19', edits=[(VR, "self.inner.safe_to_repr_str(rc)", "self.inner.to_repr_str()")],
  prog=[('', "let x = [1]\nx . push(enumerate(x))\nprint(x)\n", "[1, enumerate([...])]\n")], needs='a list holding an enumeration of itself', breaks='the conversion starts over with a fresh guard and never ends'),
 dict(id='c19-last', property='C19', edits=[(VM, "        let ret = self.0.contains(&boxed);", "        // The innermost ones are the likely candidates\n        let ret = self.0.iter().rev().take(4).any(|it| *it == boxed);")],
  prog=[('', "let a = [], b = [a], c = [b], d = [c], e = [d], f = [e]\na . push(f)\nprint(a)\n", "[[[[[[[...]]]]]]]\n")], needs='a cycle through more than four containers', breaks='longer cycles are not noticed and followed for ever'),
 dict(id='c19-vector-leave', property='C19', edits=[(VM, "            Type::Vector => recursive_guard!(\n                Cow::from(\"(...)\"),\n                map_join(rc, self.as_vector().borrow().iter(), '(', ')', \"()\", \", \")\n            ),", "            Type::Vector => {\n                if rc.enter(self) {\n                    rc.leave();\n                    return Cow::from(\"(...)\");\n                }\n                if self.as_vector().borrow().is_empty() {\n                    return Cow::from(\"()\");\n                }\n                let ret = map_join(rc, self.as_vector().borrow().iter(), '(', ')', \"()\", \", \");\n                rc.leave();\n                ret\n            },")],
  prog=[('', "let v = vector()\nprint([v, v])\n", "[(), ()]\n")], needs='an empty vector appearing twice within a value', breaks='the guard is not left for empty vectors, which are taken to contain themselves when they appear again'),
 dict(id='c19-dict-immediate', property='C19', edits=[(VM, ".map(|(k, v)| format!(\"{}: {}\", k.safe_to_repr_str(rc), v.safe_to_repr_str(rc)))", ".map(|(k, v)| {\n                        // Keys are hashed, and so they cannot contain the dictionary\n                        format!(\"{}: {}\", k.to_repr_str(), v.safe_to_repr_str(rc))\n                    })")],
  prog=[('', "struct S(x)\nlet k = [1], d = {k: 2}\nk[0] = d\nprint(d)\n", "{[{...}]: 2}\n")], needs='a key changed after it was put in the dictionary to contain the dictionary', breaks='keys are converted with a guard of their own'),
]
