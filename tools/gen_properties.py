#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The properties are kept here so that they are reviewable as text."""
import json, os
P = []


def p(id, title, statement, over, q, why, files, mech, state=None):
    d = dict(id=id, title=title, statement=' '.join(statement.split()), quantifier=dict(over=over, text=' '.join(q.split())),
             why_tests_cant=' '.join(why.split()), anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)


S = 'cordy-sys/src/'

p('C01', 'No container is locked while program code runs or while it is read again',
  '''Whenever a built-in operation calls back into a function supplied by the program (a predicate, key, comparator, reducer, default factory or
  memoized function), it holds no lock on any list, vector, set, dict, heap, struct or memo table, so the callback is free to read or modify every
  container, including the one being processed. A built-in that is handed two containers likewise never keeps one exclusively locked while it locks the other, so
  passing the same container twice works and never aborts the interpreter.''',
  ['programs', 'inputs'], 'every built-in that takes a function or a second container, every callback body, every aliasing between the arguments',
  'The tests call each higher-order built-in with pure callbacks and distinct containers; aliasing and self-modifying callbacks are unbounded and a wrong lock only shows as a panic on those.',
  [S + 'core/collections.rs', S + 'core/mod.rs', S + 'vm/mod.rs', S + 'vm/value/ptr.rs', S + 'vm/value/mod.rs', S + 'vm/value/collections.rs'],
  [('borrow guards are dropped before any call into the interpreter', S + 'core/collections.rs'), ('lock word of each mutable heap value', S + 'vm/value/ptr.rs Prefix::borrow / borrow_mut')])

p('C02', 'A raised error is never swallowed',
  '''When an operator, conversion, built-in, or a program function called by a built-in raises a runtime error, the operation that provoked it stops and hands that
  same error to its caller. No error is dropped, replaced by an ordinary value, or overwritten while evaluation carries on as if the operation had succeeded.''',
  ['programs', 'inputs'], 'every fallible operation in the interpreter and its built-ins, and every way it can fail',
  'Tests check one failing input for some built-ins; a discarded result on one path still produces a plausible value on all tested inputs.',
  [S + 'core/mod.rs', S + 'core/collections.rs', S + 'core/strings.rs', S + 'core/math.rs', S + 'core/pattern.rs', S + 'vm/mod.rs', S + 'vm/operator.rs', S + 'vm/value/mod.rs', S + 'vm/value/error.rs', S + 'vm/value/collections.rs', S + 'util.rs', 'cordy/src/ffi.rs'],
  [('fallible results carried by ? and by catch/join pairs', S + 'util.rs, ' + S + 'vm/value/error.rs')])

p('C03', 'Every built-in is callable with exactly the argument counts it declares',
  '''For every built-in function and every number of arguments, whether the call is direct, completes a partial application, or is made by another built-in, the
  call either runs that function's implementation, yields a partial application, or raises the incorrect-number-of-arguments error. It never aborts the interpreter for lack of an
  implementation, a count outside the declared arity is always rejected, and the name and arity the language reports for a function are those of the function that runs.''',
  ['programs', 'inputs'], 'all built-in functions x all argument counts x the three ways of calling (direct, through a partial, from a built-in)',
  'Tests call most built-ins directly with the usual counts; the product of functions, counts and call routes is never covered and a hole is a process abort.',
  [S + 'core/mod.rs'], [('arity table and the dispatch functions per argument count', S + 'core/mod.rs')])

p('C04', 'All spellings of an operator mean the same operation',
  '''An operator written infix or prefix, used as a function value in parentheses, partially applied from either side, used in a compound assignment, or evaluated ahead of time by the
  optimizer always performs the same operation on the same operands in the same order. Partially applying from the right differs from applying from the left only in which operand is supplied
  first, also for operators that are not commutative.''',
  ['programs', 'inputs'], 'every operator token x every spelling (infix, function value, left/right partial, compound assignment, folded constant)',
  'Tests sample a few operator/spelling pairs; the spellings are implemented by separate tables (parser, built-ins, bytecode, optimizer) which can drift apart per operator.',
  [S + 'compiler/parser/mod.rs', S + 'compiler/parser/codegen.rs', S + 'compiler/parser/expr/mod.rs', S + 'compiler/parser/expr/optimizer.rs', S + 'core/mod.rs', S + 'vm/operator.rs', S + 'vm/mod.rs'],
  [('token to operator tables', S + 'compiler/parser/mod.rs parse_expr_*, parse_unary_operator, parse_binary_operator_*'), ('operator apply and built-in operator functions', S + 'vm/operator.rs, ' + S + 'core/mod.rs')])

p('C05', 'A global variable is never touched before its declaration has run',
  '''Reading or assigning a global variable from code that runs before the variable's declaration has been executed always raises the "referenced but has not been declared yet" error for that
  variable, whether the access is a plain read, an assignment, a compound assignment or a destructuring assignment. Such an access never reads or overwrites another stack slot, and after the declaration has run it never fails.''',
  ['programs', 'histories'], 'all programs and call orders in which a function referring to a global runs before or after its declaration',
  'Late binding depends on the run-time call order; tests exercise a handful of orders and almost only plain reads.',
  [S + 'vm/mod.rs', S + 'compiler/parser/semantic.rs', S + 'compiler/parser/mod.rs', S + 'core/pattern.rs'],
  [('initialised-globals counter compared on each access and bumped by each declaration', S + 'vm/mod.rs PushGlobal, StoreGlobal, InitGlobal, store()')])

p('C06', 'Whatever can be called directly can be called everywhere',
  '''Every kind of value that the call syntax can call (user functions, closures, partial and memoized functions, struct types, field accessors, slices, built-ins) can be called with the same number of arguments by every built-in that takes a function with no, one or two arguments, and is handed the arguments in order.
  `is function` is true of exactly these kinds, as is every other test by which a built-in tells a function from a plain value, and the number of parameters by which a built-in chooses how to call is known for each of them. (A list used as an index is called too, but never regarded as a function.)''',
  ['programs', 'inputs'], 'every kind of value x every calling position x 0 to 2 arguments',
  'Built-ins have a separate fast path per argument count and type; tests pass mostly plain functions.',
  [S + 'vm/mod.rs', S + 'core/mod.rs', S + 'vm/value/mod.rs', S + 'vm/value/func.rs'], [('evaluable test, invoke dispatch and per-arity fast paths', S + 'vm/mod.rs invoke, ' + S + 'core/mod.rs InvokeArg0/1/2, ' + S + 'vm/value/mod.rs is_evaluable')])

p('C07', 'Programs act on the host only through their declared channels',
  '''Compiling source text touches nothing outside the process. While a program runs, only these built-ins reach the host: print writes to the output stream the machine was given, read and read_line read
  its input stream, env observes environment variables (the one the program names, when it names one), read_text reads a file and write_text writes one, at exactly the path the program gives and no other; native
  functions the program declares are called in the libraries linked for them. Everything else, operators and all other built-ins included, neither opens files, nor starts processes or threads, nor uses the network, nor
  writes to or reads from other streams, nor consults time, randomness or randomly seeded hashing.''',
  ['programs', 'inputs', 'configurations'], 'all source texts and all executions',
  'Absence of an effect on every program cannot be sampled; tests look only at produced output.',
  [S + 'vm/mod.rs', S + 'core/mod.rs', S + 'compiler/mod.rs', 'cordy/src/ffi.rs'],
  [('streams, environment and arguments behind the virtual machine interface', S + 'vm/mod.rs'), ('file access in two built-ins', S + 'core/mod.rs'), ('native libraries', 'cordy/src/ffi.rs')])

p('C08', 'Sets and dicts always keep insertion order',
  '''Sets and dicts iterate, print, convert and compare positions in the order in which their keys were first inserted, after any sequence of insertions, removals, unions, intersections, differences and copies.
  Removing a key never moves any other key, and no result's order depends on hashing.''',
  ['programs', 'histories'], 'every history of operations on sets and dicts',
  'Order after removal depends on the position removed and on the history; tests remove at most from a few tiny sets and never look at the remaining order.',
  [S + 'core/collections.rs', S + 'core/mod.rs', S + 'vm/value/collections.rs', S + 'vm/value/mod.rs', S + 'vm/operator.rs'],
  [('index-ordered hash containers, order preserving removal', S + 'vm/value/collections.rs, ' + S + 'core/collections.rs')])

p('C09', 'Input the compiler rejects leaves no trace in the session',
  '''When a line entered interactively, or a text given to `eval`, is rejected by the compiler or turns out to be incomplete, then code, constants, patterns, variable names, source locations, fields, foreign functions
  and declared variables are exactly what they were before it was read. Later input behaves as if the rejected text had never been entered.''',
  ['histories', 'inputs'], 'every sequence of accepted, rejected and incomplete inputs to one session',
  'The state spans nine tables and failures can happen after any prefix of the text; tests use a few fixed sessions.',
  [S + 'compiler/mod.rs', S + 'compiler/parser/mod.rs', S + 'repl.rs', S + 'vm/mod.rs'], [('save/restore of compile state around an incremental compile', S + 'compiler/mod.rs')])

p('C10', 'A run-time error leaves an interactive session consistent',
  '''After an interactive line ends with a run-time error, the next line starts with exactly the declared global variables on the operand stack and nothing else left over from the failed line: no call frames, no partially built collections, no pending
  argument counts, no captured-variable links into abandoned frames. Every variable, earlier or later, keeps denoting its own value.''',
  ['histories', 'programs'], 'every sequence of interactive lines, and every point at which one of them can fail',
  'The leftovers depend on where inside nested calls, literals and closures the error strikes; tests cover one or two such points.',
  [S + 'vm/mod.rs', S + 'repl.rs'], [('recovery resets transient interpreter state', S + 'vm/mod.rs run_recovery')])

p('C11', 'Every compiled unit ends with the instruction that leaves it',
  '''Whatever the text, the code of a program ends with `Exit`, that of an interactive line with `Yield`, that of an evaluated text and of each function body with `Return`: on every path through the compiler, whatever the unit consists of, and
  also after the optimizer has merged instructions. The interpreter fetches instructions without bounds checks and so never runs on from one unit into the next or beyond the code.''',
  ['programs', 'inputs'], 'every source text, optimised or not',
  'A missing terminator shows only when control reaches that end; the fetch is unchecked in release builds.',
  [S + 'compiler/parser/mod.rs', S + 'compiler/parser/core/graph.rs', S + 'compiler/parser/core/optimizer.rs', S + 'vm/mod.rs'], [('entry rules and function bodies push a terminal opcode before finishing', S + 'compiler/parser/mod.rs')])

p('C12', 'Every instruction has exactly one source location',
  '''In the compiled code the table of source locations has exactly one entry per instruction, in the same order, for every unit and after any number of incremental compiles, accepted or rejected: the location recorded with that instruction. A
  run-time error, each call of its stack trace and each line of a disassembly is attributed to the location of the very instruction that was executed, made the call or is shown.''',
  ['programs', 'histories'], 'every program and every session history',
  'A drift by one shifts all later error positions; tests compare error positions of small programs only.',
  [S + 'compiler/parser/core/graph.rs', S + 'compiler/mod.rs', S + 'vm/error.rs', S + 'vm/mod.rs'], [('instructions and locations are appended and truncated together', S + 'compiler/parser/core/graph.rs emit, ' + S + 'compiler/mod.rs restore'), ('lookups of locations', S + 'vm/error.rs with_stacktrace')])

p('C13', 'Compilation terminates on every input text',
  '''Scanning and parsing any text whatsoever, however malformed or truncated, terminates: each repetition in the scanner and the parser consumes input or gives up, and no grammar rule re-enters itself without having consumed a token.''',
  ['inputs'], 'all source texts, including arbitrary byte garbage and every prefix of valid programs',
  'Non-termination appears for specific malformed inputs that no finite test list contains.',
  [S + 'compiler/scanner.rs', S + 'compiler/parser/mod.rs', S + 'compiler/parser/core/mod.rs', S + 'compiler/parser/semantic.rs'], [('token-consuming loops and error recovery that drains input', S + 'compiler/parser/core/mod.rs')])

p('C14', 'The prompt continues a line exactly when the first error is that it ended early',
  '''Interactive input is treated as unfinished exactly when its first error is that it ended too early: an unterminated string or comment, or a grammar rule that found no token left where it needed one. An error at an actual token, or any error of meaning, that comes first is reported at once, and text given to `eval` is never treated as unfinished.
  Unfinished input is kept and the next line, even a blank one, is added to it, with the prompt showing so; any other input is not part of what is read next. Only input that compiled is run.''',
  ['inputs', 'histories'], 'all interactive inputs and every kind of compile error',
  'There is one decision per error kind and tests reach a few of them; what a line does depends on the lines before it.',
  [S + 'compiler/parser/errors.rs', S + 'compiler/scanner.rs', S + 'compiler/parser/core/mod.rs', S + 'compiler/mod.rs', S + 'repl.rs'], [('end-of-input classification of each error kind', S + 'compiler/parser/errors.rs, ' + S + 'compiler/scanner.rs'), ('prompt', S + 'repl.rs')])

p('C15', 'Each evaluation of a literal yields a fresh value',
  '''Values that are stored once in the compiled program and shared by every evaluation of it - number, string and function constants, struct types and modules - can never be changed by the running program. Every evaluation of a list, vector, set or dict literal, of a function that captures variables,
  of a partial call and every creation of a struct instance gives a newly made value, so that changing it never changes what an earlier or later evaluation of the same expression gave.''',
  ['programs', 'histories'], 'all programs that evaluate the same expression more than once',
  'Sharing only shows when one evaluation result is mutated and another one inspected; tests rarely do both.',
  [S + 'compiler/parser/semantic.rs', S + 'compiler/parser/codegen.rs', S + 'vm/value/mod.rs', S + 'vm/value/ptr.rs', S + 'vm/value/func.rs', S + 'vm/mod.rs'], [('constant table receives only immutable kinds', S + 'compiler/parser/semantic.rs declare_const, bake'), ('literals, closures and instances are allocated', S + 'vm/value/mod.rs Literal, instance; vm/value/func.rs to_closure, to_partial')])

p('C16', 'Optimizing an expression keeps its value and the order of its effects',
  '''With optimization on, an expression evaluates to the same value as without, and its parts are evaluated as often as written, on the same conditions, and in the same order where that can be observed: calls, assignments, lookups that may run a default, and `exit` keep their order, and a variable read is not moved across any of them.
  Only parts that are constants, names of functions, or partial calls and operators on such may move. Which of several errors raised by operators on plain values comes first is not part of this.''',
  ['programs'], 'all expressions of every kind, with parts that have effects, read variables, are constant or pure',
  'Reordering shows only for the right pair of effects in the right position; the optimizer tests look at emitted code for pure examples.',
  [S + 'compiler/parser/expr/optimizer.rs', S + 'compiler/parser/expr/mod.rs', S + 'compiler/parser/codegen.rs'], [('optimizer, purity classification and the reorder test', S + 'compiler/parser/expr/optimizer.rs'), ('traversal of expressions', S + 'compiler/parser/expr/mod.rs walk')])

p('C17', 'A value is always handled as the type it was created with',
  '''Each value carries a type tag; creating, cloning, dropping, comparing, hashing, printing and accessing a value agree, for every tag, on which representation stands behind it. Cloning adds a reference exactly for the values whose
  drop removes one, and a representation is freed as the same type it was allocated as.''',
  ['programs', 'inputs'], 'all types of value x all generic operations',
  'A wrong pairing is memory unsafety on one rarely used type; tests exercise common types and cannot see leaks or misfreed memory.',
  [S + 'vm/value/ptr.rs', S + 'vm/value/mod.rs'], [('tag dispatch in clone, drop, equality, hash and the typed accessors', S + 'vm/value/ptr.rs')])

p('C18', 'Equal values hash alike',
  '''Any two values that the language considers equal are interchangeable as set members and dict keys, including values of different numeric types (bool, int, rational, complex) and containers of them: values that are equal are always hashed alike, whatever the order, place or history of their parts.''',
  ['inputs', 'programs'], 'all pairs of equal values',
  'The pairs are infinite; tests use same-type keys.',
  [S + 'vm/value/ptr.rs', S + 'vm/value/mod.rs', S + 'vm/value/number.rs', S + 'vm/value/collections.rs', S + 'vm/value/slice.rs', S + 'vm/value/range.rs', S + 'vm/value/func.rs'], [('equality and hash implementations per type', S + 'vm/value/')])

p('C19', 'Values that contain themselves can be turned into text',
  '''Turning any value into text (printing, `str`, `repr`, string formatting), however it is nested and even if it contains itself directly or through other containers, structs, enumerations or functions, terminates, and marks the place where a value appears within itself
  instead of following it for ever. A value that merely appears more than once, without containing itself, is written out each time.''',
  ['programs', 'inputs'], 'all values including arbitrarily long reference cycles through any mix of container types',
  'Cycles can pass through any combination of container types; tests build two or three.',
  [S + 'vm/value/mod.rs', S + 'vm/value/func.rs', S + 'vm/value/range.rs'], [('recursion guard around each container conversion', S + 'vm/value/mod.rs RecursionGuard'), ('conversions of values within others pass the guard on', S + 'vm/value/func.rs, range.rs')])

p('C20', 'Highlighted source is well formed and cannot inject markup',
  '''For any source text and any choice of kinds left out, the highlighted output of the formatter (HTML) and of the web terminal opens and closes every element exactly once, with no element inside another. Every character of the source comes out exactly once and in order;
  one that has a meaning in the output (< > & and quotes in HTML, brackets and the backslash in the terminal) is written as the entity of that very character. In HTML a tab comes out as spaces, and a carriage return is left out.''',
  ['inputs'], 'all source texts and all format options',
  'Injection needs particular characters in particular token kinds; there are only a few golden outputs.',
  ['cordy/src/main.rs', 'cordy-web/src/lib.rs', S + 'syntax.rs'], [('begin/push/end callbacks of the formatters', 'cordy/src/main.rs RenderedFormatter, cordy-web/src/lib.rs TerminalFormatter, ' + S + 'syntax.rs')])

p('C21', 'The C header and the interpreter agree on the foreign function interface',
  '''The type codes, struct layouts, field widths and calling convention of values exchanged with linked native libraries are the same in the C header that libraries compile against and in the interpreter, for arguments and for results, and for the functions the interpreter gives to libraries.
  Nil, booleans, integers, strings, vectors and lists are passed whole and unchanged with the code and field of the header and results are taken back by the same; any other kind of value, and a string with a zero character, is refused with an error instead of being reinterpreted or cut off, and an error within a result is raised.''',
  ['inputs', 'configurations'], 'all values of all types passed to or returned from native code',
  'The native tests exchange a few values of a few types; padding, width or code mismatches on other types go unnoticed or corrupt memory.',
  ['cordy/src/ffi.rs', 'cordy/cordy.h'], [('C compatible mirror types and conversion functions', 'cordy/src/ffi.rs'), ('public C header', 'cordy/cordy.h')])

p('C22', 'Operators bind exactly as the documented precedence table says',
  '''In every expression, operators bind by the precedence levels documented in the language reference: operators of one level group together from left to right, and an operator of a tighter level always groups before one of a looser level, whichever operators
  and however many are combined.''',
  ['programs'], 'all combinations of operators in expressions',
  'Pairs and chains of more than thirty operators are too many to test; tests contain a few.',
  [S + 'compiler/parser/mod.rs', 'docs/language.md'], [('one grammar rule per precedence level', S + 'compiler/parser/mod.rs parse_expr_1 .. parse_expr_10')])

p('C23', 'Error messages name operators and tokens as they are written',
  '''Whenever an error message names the unexpected keyword or symbol it found, or the operator or built-in that failed, it names the very one that is in the program, spelled as in the source (`not in`, `min=`, `module`). No two different operators, tokens or built-ins are described by the same name.''',
  ['inputs', 'programs'], 'all operators, keywords and symbols in all error messages',
  'Each token and operator has its own entry in several tables; tests trigger a fraction of them.',
  [S + 'reporting.rs', S + 'compiler/scanner.rs', S + 'vm/operator.rs', S + 'core/mod.rs'], [('scanner tables and error formatting tables', S + 'compiler/scanner.rs, ' + S + 'reporting.rs')])

p('C24', 'Every scope the compiler opens is closed again',
  '''While compiling, each block, function, loop, module or struct scope that is entered is left again on every path, including when parsing fails part way. A variable is therefore never visible after its block, `break` and `continue` always refer to the innermost enclosing loop of the same function and remove exactly the variables declared inside it, and text after a construct is compiled at the nesting at which it stands.''',
  ['programs', 'inputs'], 'all source texts, well formed or not',
  'An unbalanced path may only be taken for particular malformed or rare constructs and its effect appears later in the text.',
  [S + 'compiler/parser/mod.rs', S + 'compiler/parser/semantic.rs', S + 'compiler/parser/core/mod.rs'], [('scope depth, function and loop nesting are raised and lowered in pairs', S + 'compiler/parser/mod.rs')])

p('C25', 'Every expression leaves exactly one value on the operand stack',
  '''Whatever an expression consists of and whichever of its branches run, executing the code compiled for it raises the operand stack by exactly one value: each instruction takes and leaves as many operands as the code generator assumes, the branches that meet agree on the height, a call takes off the function and
  all its arguments (including unrolled and previously bound ones) and leaves the result, a function starts with exactly its parameters in place, and a destructuring assignment takes exactly the operands of its targets.''',
  ['programs'], 'all expressions of all nesting, on all branches, and all ways of calling',
  'An imbalance corrupts unrelated variables much later and only on the affected branch; tests check results of small programs.',
  [S + 'compiler/parser/codegen.rs', S + 'compiler/parser/mod.rs', S + 'vm/mod.rs', S + 'core/mod.rs', S + 'core/pattern.rs'], [('code emission per expression kind, operand counts per instruction and ways of calling', S + 'compiler/parser/codegen.rs, ' + S + 'vm/mod.rs')])

p('C26', 'A name refers to the declaration visible where it is written',
  '''A name denotes a built-in, else the innermost initialized variable of the function, else the innermost one of an enclosing function, else a field or method of `self`, else a function of the innermost enclosing module that has it, else a global, which may also be declared later. Each use, whether it reads, assigns
  or destructures, acts on exactly the slot of that declaration, at whatever nesting and however many functions it is captured through. Names never declared, and declaring a name twice in one scope or that of a built-in, are reported.''',
  ['programs'], 'all nestings of functions, blocks and modules, all kinds of declarations and all kinds of uses',
  'The rules combine: which declaration wins, through how many functions it is captured, and whether it comes before or after the use; tests hold a few of the combinations.',
  [S + 'compiler/parser/semantic.rs', S + 'compiler/parser/codegen.rs'], [('order of resolution and capture', S + 'compiler/parser/semantic.rs resolve_reference, resolve_upvalue'), ('names bound later', S + 'compiler/parser/semantic.rs resolve_late_bindings'), ('instructions per kind of reference', S + 'compiler/parser/codegen.rs push_load_lvalue, push_store_lvalue')])

p('C27', 'A variable holds what was last stored in it, also when captured',
  '''Reading a local, global or captured variable yields what was last stored in it. A function that captures a variable shares it with the function that declares it and with every other function that captures it, while the declaring block is running and after it has ended by any way out: its end, `break`, `continue`, `return` or a run-time error. Each iteration of a loop has its own variables.''',
  ['programs'], 'all nestings of blocks, loops and functions, all ways out of a block and all orders of capturing, reading and assigning',
  'A captured variable moves from its stack slot to a cell of its own at the moment the slot goes away; whether that happens depends on the way the block is left and on what has been captured before, of which tests hold a few combinations.',
  [S + 'vm/mod.rs', S + 'compiler/parser/semantic.rs', S + 'compiler/parser/mod.rs', S + 'compiler/parser/codegen.rs'], [('instructions on variables', S + 'vm/mod.rs run, store, lift_upvalue, run_recovery'), ('ways out of a block', S + 'compiler/parser/mod.rs, ' + S + 'compiler/parser/semantic.rs pop_locals'), ('capturing', S + 'compiler/parser/semantic.rs resolve_reference, closed_locals; ' + S + 'compiler/parser/codegen.rs emit_closure_and_closed_locals')])

p('C28', 'The code generated for an expression computes that expression',
  '''For every kind of expression, the generated instructions evaluate its parts left to right (a swapped operator's right side first), each as often as the language says: both sides of `and` and `or`, branches of a conditional and chained comparisons only on the condition given, every operand of a call, literal, index, slice or operator exactly once.
  They then apply exactly the written operation to those values in the written roles, unrolled parts as unrolled, leaving its value.''',
  ['programs'], 'all expressions of every kind, argument and entry lists with every placement of unrolled parts, all captured variables',
  'Operand order and branch kinds matter only for operands with effects or of particular values; tests compare generated code for a few examples.',
  [S + 'compiler/parser/codegen.rs', S + 'compiler/parser/core/mod.rs'], [('code per expression kind', S + 'compiler/parser/codegen.rs emit_expr, emit_binary_op_args, emit_closure_and_closed_locals')])

p('C29', 'Merging instructions of a block keeps what the block does',
  '''When optimization is enabled, the instructions of a block are merged (a store whose value is not needed, several values dropped at once, a value stored and read back). Whatever the block contains, it still takes the same values from the operand stack
  and leaves the same values there, stores the same values in the same variables, and executes all its other instructions, once each, in the same order.''',
  ['programs'], 'all sequences of instructions in a block',
  'Which instructions meet in a block, with which variables, depends on the program; tests compile a few with optimization.',
  [S + 'compiler/parser/core/optimizer.rs', S + 'compiler/parser/core/mod.rs'], [('peephole passes over a block', S + 'compiler/parser/core/optimizer.rs Code::optimize')])

p('C30', 'Only what is documented to modify a collection changes one',
  '''A list, vector, set, dict, heap or struct instance is changed only by assignment to an element or field, by looking up a missing key of a dict that has a default, and by the built-ins documented as modifying one: `push`, `push_front`, `pop`, `pop_front`, `insert`, `remove`, `clear`, `default`, `union`, `intersect`, `difference`.
  These change their last argument and nothing else. Every other built-in and operator leaves its arguments as they are, and never gives back one of them in place of a new collection; neither does taking a slice of a list or vector, or a copy. (What functions passed to a built-in do is not part of this.)''',
  ['inputs', 'programs'], 'all built-ins, operators and instructions x all kinds and states of their arguments',
  'An argument that is changed, or given back instead of a copy, shows only when the program looks at the original afterwards, and for particular shapes of arguments; tests check results.',
  [S + 'core/collections.rs', S + 'core/mod.rs', S + 'vm/operator.rs', S + 'vm/value/slice.rs', S + 'vm/mod.rs'], [('built-ins on collections', S + 'core/collections.rs'), ('operators on collections', S + 'vm/operator.rs')])

p('C31', 'Source text is divided into tokens, strings and comments as the grammar says',
  '''For every source text: a line comment ends at the end of its line and a block comment at the first `*/` after its opening mark; a string ends at the first quote like the one that opens it that no backslash precedes, and holds the characters between them with `\\n`, `\\r`, `\\t`, `\\\\` and escaped quotes replaced, any other backslash and every character but a carriage return kept.
  A missing end is reported as unterminated, and only then. Outside of them, each operator is the longest that the text gives, a name is taken whole and is a keyword exactly if it is spelled as one, and a number has the digits of its base (with `_` ignored and a suffix `i` or `j` for imaginary ones). No other character is skipped: it is white space or reported as invalid.''',
  ['inputs'], 'all source texts (all states of the grammar x all classes of characters)',
  'Which characters follow each other is unbounded; the tests scan a few lines, and what goes wrong (a comment that swallows code, an operator split in two) depends on particular neighbours.',
  [S + 'compiler/scanner.rs'], [('scanner', S + 'compiler/scanner.rs')])

# ---- properties this family cannot decide (see DESIGN.md)
p('N01', 'Numeric operators compute the documented results', '''Integer, rational and complex arithmetic, powers, roots, gcd and lcm, bit operations and numeric conversions produce the documented value for every operand, including the extremes of the integer range.''',
  ['inputs'], 'all numeric operands', 'Infinitely many operands; tests sample.', [S + 'vm/operator.rs', S + 'core/math.rs', S + 'vm/value/number.rs'], [('arithmetic functions', S + 'vm/operator.rs')])
p('N02', 'Indexing and slicing select the documented elements', '''For every sequence, index and slice, including negative, out-of-range and absent bounds and every step, indexing and slicing return exactly the documented elements or a documented error.''',
  ['inputs'], 'all sequences x all indices, bounds and steps', 'The product of lengths, bounds and steps is unbounded.', [S + 'core/collections.rs', S + 'vm/value/mod.rs', S + 'vm/value/range.rs'], [('index normalisation', S + 'vm/value/mod.rs')])
p('N03', 'No program can crash the interpreter', '''No source text, program or input makes the compiler or the interpreter panic, overflow the native stack or exhaust memory silently; every failure is a reported error.''',
  ['programs', 'inputs'], 'all programs and inputs', 'Unbounded program space.', [S + 'vm/mod.rs', S + 'core/mod.rs', S + 'vm/value/mod.rs', S + 'compiler/parser/mod.rs'], [('checked conversions and errors', S + 'vm/error.rs')])
p('N05', 'Optimized and unoptimized programs produce the same output', '''For every program, running it with optimization enabled produces the same output and the same result or error as without.''',
  ['programs'], 'all programs', 'Unbounded program space.', [S + 'compiler/parser/expr/optimizer.rs', S + 'compiler/parser/core/optimizer.rs'], [('expression and code optimizers', S + 'compiler/parser/expr/optimizer.rs')])
p('N06', 'Sorting, heaps, permutations and grouping satisfy their specifications', '''Sorting orders by the comparison given and is stable, heaps pop in order, and combinatorial, grouping and searching built-ins return exactly the documented elements in the documented order for all inputs.''',
  ['inputs'], 'all sequences and comparison functions', 'Unbounded inputs.', [S + 'core/collections.rs'], [('collection algorithms', S + 'core/collections.rs')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P: f.write(json.dumps(d) + '\n')
    print(len(P), 'properties')
