C = 'cordy-sys/src/core/collections.rs'
SEEDS += [
 dict(id='c01-any-lock', property='C01', edits=[(C, """    let f: InvokeArg1 = InvokeArg1::from(f)?;
    for r in args.to_iter()? {
        if f.invoke(r, vm)?.to_bool() == is_any {""", """    let f: InvokeArg1 = InvokeArg1::from(f)?;
    if args.is_list() {
        // Avoid copying the list
        for r in args.as_list().borrow().iter() {
            if f.invoke(r.clone(), vm)?.to_bool() == is_any {
                return is_any.to_value().ok()
            }
        }
        return (!is_any).to_value().ok()
    }
    for r in args.to_iter()? {
        if f.invoke(r, vm)?.to_bool() == is_any {""")],
  prog="let xs = [1, 2, 3]\nxs . any(fn(x) { xs.push(x)\n return x == 2 }) . print\nxs . print\n", needs='a predicate passed to any or all which modifies the list', breaks='the list is locked while the predicate runs'),
 dict(id='c01-union-lock', property='C01', edits=[(C, """            let other = other.to_iter()?.collect::<IndexSet<ValuePtr, FxBuildHasher>>();
            let mut set = this.as_set().borrow_mut();
            set.retain(|e| other.contains(e));""", """            let mut set = this.as_set().borrow_mut();
            if other.is_set() {
                set.retain(|e| other.as_set().borrow().contains(e));
            } else {
                let other = other.to_iter()?.collect::<IndexSet<ValuePtr, FxBuildHasher>>();
                set.retain(|e| other.contains(e));
            }""")],
  prog="let s = {1, 2, 3}\ns . intersect(s) . print\n", needs='intersecting a set with itself', breaks='the set is locked exclusively while it is read again'),
]
