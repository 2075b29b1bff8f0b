C = 'cordy-sys/src/core/collections.rs'
SEEDS += [
 dict(id='c08-union-larger', property='C08', edits=[(C, """            for e in other {
                set.insert(e);
            }
            drop(set);""", """            if other.len() > set.len() {
                // Insert the smaller set into the larger
                let mut larger: IndexSet<ValuePtr, FxBuildHasher> = other.into_iter().collect();
                larger.extend(set.iter().cloned());
                set.retain(|_| false);
                set.extend(larger);
            } else {
                for e in other {
                    set.insert(e);
                }
            }
            drop(set);""")],
  prog="let s = {9}\ns . union({1, 2, 3}) . print\n", needs='a union with a larger set', breaks='the elements of the argument come first'),
 dict(id='c08-dict-remove-swap', property='C08', edits=[(C, "Type::Dict => target.as_dict().borrow_mut().shift_remove(&needle).is_some().to_value().ok(),", "Type::Dict => target.as_dict().borrow_mut().swap_remove(&needle).is_some().to_value().ok(),")],
  prog="let d = {1: 1, 2: 2, 3: 3, 4: 4}\nd . remove(1)\nd . print\n", needs='removing a key that is neither the last nor the one before it', breaks='the last key moves to the place of the removed one'),
 dict(id='c08-counter-sorted', property='C08', edits=[(C, """    let mut counter: IndexMap<ValuePtr, ValuePtr, FxBuildHasher> = IndexMap::with_capacity_and_hasher(iter.len(), FxBuildHasher::default());
    for elem in iter {
        counter""", """    let mut counter: HashMap<ValuePtr, ValuePtr, FxBuildHasher> = HashMap::with_capacity_and_hasher(iter.len(), FxBuildHasher::default());
    for elem in iter {
        counter"""), (C, "    counter.to_value().ok()", "    counter.into_iter().collect::<IndexMap<ValuePtr, ValuePtr, FxBuildHasher>>().to_value().ok()")],
  prog="[50, 3, 17, 99, 4, 23, 42, 8, 15, 16] . counter . print\n", needs='counting more than a few distinct elements', breaks='the keys come in the order of their hashes'),
 dict(id='c08-update-moves', property='C08', edits=[(C, """        target.as_dict()
            .borrow_mut()
            .insert_checked(index, value)""", """        if value.is_nil() {
            remove(index.clone(), target.clone());
        }
        target.as_dict()
            .borrow_mut()
            .insert_checked(index, value)""")],
  prog="let d = {1: 1, 2: 2, 3: 3}\nd[1] = nil\nd . print\n", needs='storing nil under a key that is present', breaks='the key moves to the end'),
]
