FI = 'cordy/src/ffi.rs'; HD = 'cordy/cordy.h'
NATIVE = r'''#!/bin/bash
# compiles a native library against the header, and runs the program beside this file with it
here="$(cd "$(dirname "$0")" && pwd)"; d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
{ echo '#include <stddef.h>'; echo '#include "cordy.h"'; cat "$here/lib.c"; } > "$d/lib.c"
cp cordy/cordy.h "$d/cordy.h" && gcc -shared -fPIC -w -o "$d/liblib.so" "$d/lib.c" || exit 1
out="$(cd "$here" && timeout 60 "$OLDPWD/target/debug/cordy" --link "lib=$d/liblib.so" main.cor 2>&1)"
[ "$out" == "$(cat "$here/out.txt")" ] || { echo "differs: $out"; exit 1; }
exit 0
'''
SUM = '''CORDY_EXTERN(total) {
    int64_t x = 0;
    for (size_t i = 0; i < args[0].vec_value.len; i++) x += args[0].vec_value.ptr[i].int_value;
    return INT(x);
}
CORDY_EXTERN(same) { return args[0]; }
CORDY_EXTERN(length) { int64_t k = 0; while (args[0].str_value[k]) k++; return INT(k); }
'''
FIRST = NATIVE.replace('main.cor 2>&1)', 'main.cor 2>&1 | head -1)')
def prog(s): return 'native module lib {\n    fn total(x)\n    fn same(x)\n    fn length(x)\n}\n' + s
SEEDS += [
 dict(id='c21-list-wrap', property='C21', edits=[(FI, "to_value_array(ptr.as_list().borrow().iter().cloned()),", "to_value_array(ptr.as_list().borrow().as_slices().0.iter().cloned()),")], script=NATIVE,
  files={'lib.c': SUM, 'main.cor': prog('let x = [1, 2, 3]\nx . push_front(10)\nx . push(4)\nprint(lib->total(x))\n'), 'out.txt': '20\n'}, needs='a list that was added to at its front', breaks='only a part of the list is passed'),
 dict(id='c21-nul', property='C21', edits=[(FI, "                Err(e) => Err(format!(\"String is not FFI compatible : {}\", e))", "                Err(e) => {\n                    let end = e.nul_position();\n                    let mut bytes = e.into_vec();\n                    bytes.truncate(end);\n                    CString::new(bytes).map(to_value_str).map_err(|e| format!(\"String is not FFI compatible : {}\", e))\n                }")], script=FIRST,
  files={'lib.c': SUM, 'main.cor': prog("print(lib->length('ab\x00c'))\n"), 'out.txt': 'OSError: String is not FFI compatible : nul byte found in provided data at position: 2\n'}, needs='a string with a zero character', breaks='the string is passed cut off instead of being refused'),
 dict(id='c21-int32', property='C21', edits=[(HD, "        int64_t int_value;", "        int32_t int_value;")], script=NATIVE,
  files={'lib.c': SUM, 'main.cor': prog('print(lib->total([1 << 33, 5]))\n'), 'out.txt': '8589934597\n'}, needs='an integer beyond 32 bits', breaks='the width of integers differs between the header and the interpreter'),
 dict(id='c21-tail-capacity', property='C21', edits=[(FI, "                let mut new = Vec::with_capacity(old.capacity);\n                for value in Vec::from_raw_parts(old.ptr, old.len, old.capacity) {\n                    new.push(from_value(value)?);\n                }", "                let mut new = Vec::with_capacity(old.len);\n                for value in Vec::from_raw_parts(old.ptr, old.len, old.capacity) {\n                    match from_value(value).as_result() {\n                        Ok(it) => new.push(it),\n                        Err(_) => new.push(ValuePtr::nil()),\n                    }\n                }")], script=FIRST,
  files={'lib.c': SUM + 'CORDY_EXTERN(bad) { cordy_value_t v = VEC(1); v.vec_value.ptr[0] = _ERR("no"); v.vec_value.len = 1; return v; }\n', 'main.cor': 'native module lib {\n    fn bad(x)\n}\nprint(lib->bad(1))\n', 'out.txt': 'OSError: no\n'}, needs='a native function giving an array with an error inside', breaks='the error is taken as nil'),
]
