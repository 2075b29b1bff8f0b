CLAIMS = {
 'C03': ('interprocedural conditional constant propagation over MIR per built-in variant and argument count',
  '''Decides, for every built-in and every argument count, which arm each dispatch route reaches, from the resolved MIR of the current tree; exhaustive over built-ins x counts x routes.
  Trusts rustc's MIR and that arguments above five take the arms of five. What the implementations compute is not decided.'''),
 'C04': ('whole-grammar constant propagation with fixed look-ahead, table cross-checking and code generator/optimizer/interpreter arm analysis over MIR',
  '''Follows every operator token from the scanner spelling through the parser, the operator tables, the built-in dispatch, code generation, constant folding and the interpreter arm, exhaustively over operators.
  Trusts rustc's MIR; which operators are commutative was confirmed by reading. What binary_* functions compute is not decided.'''),
 'C01': ('forward dataflow of live lock guards over MIR, against reachability in the resolved call graph',
  '''Every call in the monomorphic program made while a lock guard may be live is checked against what the callee can reach (interpreter loop, locks of the same kind). Over-approximates reachability; the listed known findings are confirmed aborts.
  Trusts rustc's MIR and call resolution, and that equality of hash table keys is only evaluated for keys of equal hash.'''),
 'C08': ('operation classification and def-use/taint dataflow over MIR for every hash table of program values',
  '''Every operation applied anywhere to an insertion ordered table of program values is classified by the resolved indexmap function; sequences that reach a set or dict are followed back to reorderings, hash ordered iterations, exchanged operands and remove-then-insert in one function.
  Trusts indexmap's documented ordering and rustc's MIR; an element-by-element rebuild in another order through index arithmetic is not seen.'''),
 'C09': ('interprocedural typestate over MIR (save / compile / restore-or-commit) and coverage of state by the restore operation',
  '''Every field of the compiler state that compiling can modify must be restored on every path on which compiling fails or stops early, for the REPL and for eval, decided by a typestate analysis split by result variant over the call graph of the entry points.
  Trusts rustc's MIR; that truncating a table to its saved length undoes what compiling did to it relies on compiling only appending, which is checked per field.'''),
 'C10': ('interprocedural typestate over MIR (error / recovery / next line) and must-write coverage of VM state',
  '''Every field of the interpreter the run loop can modify must be re-established by the recovery routine, and every path of the interactive loop from a run-time error to the next line must pass through it, decided over the resolved call graph.
  Trusts rustc's MIR; the values of the variables themselves are not decided.'''),
 'C05': ('typestate and taint of the global index over MIR (interpreter), constant propagation per reference kind and typestate of declarations (compiler)',
  '''Interpreter: every path from the global instructions to the operand stack passes the true edge of the comparison with the number of initialized globals, and the other edge returns the error naming that global. Compiler: every way of referring to a global, resolved at once or late, yields a checked instruction, and no statement compiles program code between counting a variable as declared and completing its declaration.
  Trusts rustc's MIR; that global indices are assigned in the order declarations run is argued from the single counter, not derived.'''),
 'C02': ('typestate of error-carrying values over MIR, split by result variant',
  '''In every function that holds a run-time error by value, on every path, a value that may be an error is followed to where it goes; dropping it, discarding it through a library function, panicking on it, overwriting a recorded one, or running on
  after recording one is reported with the site. Covers every function of the workspace and the library functions instantiated with error types.
  Trusts rustc's MIR; failures that are never turned into an error value in the first place are not seen.'''),
 'C18': ('constant propagation per pair of value types and field-level comparison of equality and hash implementations over MIR',
  '''For all pairs of value types the analysis determines what decides equality and what is fed to the hasher; per type the hashed fields must be compared by equality on every path yielding true, tables compared without
  regard to order must be hashed commutatively, and a type that can equal an integer must hash whole values through the integer.
  Trusts rustc's MIR and the equality and hash of library types (std, indexmap, num-complex, rug); that whole rationals are recognised by denominator one is checked, the numeric conversion is trusted.'''),
 'C22': ('abstract parsing: typestate analysis over all parser functions with the remaining token kinds as the automaton state, yielding the possible syntax tree constructor sequences, compared with the documented table',
  '''Decides the grouping of every pair (and of three operators, one per level; in the thorough tier all pairs with every level) of infix, prefix, suffix, bracket and assignment operators from the resolved MIR of the parser, for operands of any value.
  Longer chains are decided only through the pairs and triples. Node meaning is decided by C04, not here. Trusts the table in docs/language.md.'''),
 'C23': ('constant propagation per enum variant over the reporting code, abstract scanning and parsing of the described spelling, constant propagation of the operator or built-in named by each raised error',
  '''Each description of a token, operator or operator function is scanned and parsed back by analysing the scanner and parser on its characters, and each run-time error that names an operator or built-in is compared with the operation being performed, for all operators and built-ins and every dispatch route.
  Errors raised on behalf of a function value handed over by the program are not attributed. Free text of messages is not checked.'''),
 'C07': ('effect analysis over the whole call graph of monomorphic code, with each built-in isolated by constant propagation of its variant through the dispatch code',
  '''Every call from the workspace into another crate that acts on or observes the host is found on the call graph of the type-checked program; compilation reaches none, the interpreter loop none outside native calls, and each of the built-ins exactly its declared ones, with the path or variable name flowing unchanged from the program's argument.
  Crates of numerics, collections and regular expressions are trusted to compute only. What the command line driver itself does (reading the source file, the REPL) is outside the property, as are the effects of linked native code.'''),
 'C24': ('interprocedural typestate analysis with composed summaries over MIR: scope, function and module depth, stacks of frames, modules and loops, and declared variables as the state of the parser',
  '''Every parser function of the workspace is summarised for each way it may return; a grammar rule or entry point with any net change of nesting, a scope left with a variable of it still declared, a loop ended elsewhere than where `break` leaves to, or a variable declared at another depth than the current one is reported.
  What `break`, `continue` and the removal of variables do is decided by constant propagation of the loop record and of every ordering of depths. Depths beyond four levels within one function of the parser are rejected. Trusts rustc's MIR.'''),
 'C26': ('constant propagation with symbolic slots and abstract symbol tables over MIR, and an effect typestate of the instructions emitted per kind of reference',
  '''Name resolution is analysed for every relevant abstract symbol table: which kinds of declaration of the name each frame and module holds, and what has been captured before in the function that declares it and in those between. The reference found, with its slot as a symbolic number, the order of the search, and the record of captures must be the documented ones. Every kind of reference is analysed in every kind of use, and every combination of a name used before its declaration with what it turns out to be.
  The tables are scenarios of one matching entry per place, not products of several; the content of names is abstract. What instructions do with a slot when executed is outside.'''),
 'C25': ('typestate analysis with the height of the operand stack as a linear expression: of the interpreter per instruction, giving the table of effects, and of the code generator per shape of expression over that table',
  '''The effect of each instruction and of each way of calling is derived from the resolved MIR of the interpreter, and the code generator is analysed for every kind of expression, with every split of its variable parts up to two elements, branch joins included; every path must end one value higher, with unrolled calls and literals finished.
  Sub-expressions are assumed by induction to leave one value; lists of arguments, literal entries, comparisons and targets are enumerated up to two or three elements. That a branch instruction reaches the block it names, and the peephole optimizer, are not decided here. Trusts rustc's MIR.'''),
 'C06': ('constant propagation per kind of value through the call instruction, the pre-dispatched calls of built-ins, the tests for functions and every built-in that prepares a call, compared with each other over MIR',
  '''For all kinds of value but built-ins (C03 compares their routes one by one) and all argument counts used by built-ins, whether a call can succeed is computed for each route from the resolved MIR, tests on tag bits included, and must agree; the operands handed on are followed symbolically.
  Whether a call that can succeed does, for given values (the number of fields of a struct type, modules, lists of one index), is not decided. Trusts rustc's MIR.'''),
 'C17': ('constant propagation with known bits of tagged words over MIR, per kind of value and pair of kinds, with the reference count and the representation freed as the state',
  '''Creation fixes the representation behind each kind; every bit pattern of a tag, every kind and every pair of kinds is taken through telling the kind, cloning, dropping with one to three references left, equality, order, hashing, printing and all methods of values that depend on the kind. Reads as another representation, wrong counts, wrong or missing frees, payloads read from other bits than written are reported.
  Functions which read any pointer as one representation (accessors) are judged only through the operations above that use them, not at every call of a built-in. Borrow counts are C01. Assumes a 64 bit little endian target, as built here.'''),
 'C27': ('effect typestate of the interpreter over symbolic stack slots and captured variables, and typestate analysis of the compiler over every way out of a scope',
  '''Interpreter: with the operand stack, the environments and the table of open links as the symbolic state, every instruction that reads, stores, captures or detaches variables, destructuring stores, function return and recovery after errors are analysed for a captured variable that is still in its slot and for a detached one; their complete effects on slots, cells and links must be the documented ones, and nothing else in the crate works on captured variables. Compiler: resolving a name in an enclosing function marks exactly that variable as captured on every path; removing variables emits, for every small table of variables, the instruction that detaches each captured one, before the removal; on every path out of a scope or to the next iteration the captured variables of the scopes left have been detached since anything that can capture was compiled; functions capture in the order in which their variables are numbered.
  Assumed: programs whose variables live in the slots the compiler assigned (C25, C26); tables of up to three variables and captures stand for longer ones; a counting loop over slots is taken to be the effect on each.'''),
 'C16': ('translation validation by abstract interpretation of the optimizer over the MIR: every shape of expression is compared with what the optimizer makes of it, as a value term and a sequence of effects',
  '''The optimizer and the traversal are analysed, without running them, on about 5700 shapes: every kind of expression with parts that have an effect, read a variable, are pure or constant, and calls and compositions with every built-in, two levels deep. Each possible result must denote the same term and the same ordered effects as the original.
  Deeper expressions follow as parts are opaque, except where the optimizer looks more than two levels into an expression. That a lookup of a field or an operator on plain values has no effect but an error is assumed, as is the meaning of each kind of expression.'''),
 'C28': ('abstract interpretation of the code generator over the MIR per shape of expression, the emitted instruction sequence being judged by a symbolic stack machine against the meaning of the expression',
  '''About 130 shapes: all kinds, all literal kinds and unary operators, argument lists up to three with every placement of unrolled ones, chains of up to three comparisons. For each, every instruction sequence the code generator can emit is compared, path by path, with the documented meaning in order, condition, operands and value.
  Parts are opaque (induction over the expression); lists longer than three, the targets of assignments (C26, C27) and what an instruction does at run time (C25, C27) are outside. Branches are symbolic: that they reach their block is not part of this.'''),
 'C29': ('translation validation by abstract interpretation of the block optimizer over the MIR, the block and the cursor being the state, against a symbolic stack machine',
  '''Code::optimize is analysed, without running it, on about 17000 blocks: all sequences of up to three of the instructions on variables, stores and pops with equal and different slots, longer sequences of stores, loads and pops, and one of every other kind of instruction among them; every result is compared by its effect on a symbolic stack and variables.
  Longer blocks are covered as the passes look at most two instructions ahead, runs of pops excepted (up to five). That the blocks are joined as before is C12. Trusts rustc's MIR.'''),
 'C11': ('typestate analysis of the whole compiler over MIR with the last thing done to the unit being compiled as the state, and abstract interpretation of the block optimizer on blocks that end with a leaving instruction',
  '''From each of the three entry points, on every path including those through errors, the instruction appended last when a function's variables are discarded and when the code is written out is the one that leaves that kind of unit; 3333 blocks that end with such an instruction are optimized abstractly and keep it.
  That the blocks are written out completely and in order is taken from the fixed layout; jumps are not followed. Trusts rustc's MIR.'''),
 'C12': ('typestate analysis over MIR of the compiler with the difference of the lengths of the two tables and the instruction awaiting its location as the state, and a backward slice of every index into the locations',
  '''All functions that append to or cut the code or its locations are followed from the entry points: instructions and locations go in pairs, with the location recorded beside that instruction, and are cut together; every lookup is at one before the next instruction, one before a return address, or the instruction shown.
  Which location the compiler records with an instruction is not judged. To what length a rejected line is cut is C09.'''),
 'C15': ('backward tracing over MIR of every value put in the table of constants to the place where it is made, across calls, with a mutability analysis of the representations; the same tracing of what the functions that build values give; type queries for anything else that could keep values',
  '''All writes to tables of values in the compiler, all functions that turn literals, functions with captures, partial calls and struct creations into values, all statics and thread locals, and all fields of the interpreter.
  That the code emitted for a literal is the instructions that build it is C28.'''),
 'C30': ('effect analysis over the MIR call graph of every built-in, operator and instruction: which places that borrow a collection for change are reached, and a backward trace of the collection borrowed to the arguments; identity analysis of results under constant propagation of the kind of operand',
  '''All built-ins x 0..4 arguments, all operators x side x kind of collection, all instructions, slices and copies. The places are found by type, so a new way to change a collection counts at once. Functions of the program called by a built-in are left out, and so is the inside of copy, which fills the collections it makes.
  The state of iterators and memoized functions is not judged.'''),
 'C31': ('typestate analysis: the product of the lexical grammar, as an automaton over classes of characters, with the code of the scanner by interprocedural conditional constant propagation over MIR, to a fixed point',
  '''All functions of the scanner, all states of the grammar x about 70 classes of characters (the ones told apart by a comparison in the code or by the grammar) x the next character where it is looked at. The value of a number is that of the conversion of its digits, which is a call into the standard library; the position of a token is not judged here, only its width for operators (C12 has the rest).'''),
 'C14': ('constant propagation of the classification over every kind of error, backward slices of what each error is made with, and typestate analyses of the compilation and of the prompt over MIR',
  '''All kinds of errors x with or without a token; every place that makes an error which says what was found; all paths through the incremental compilation and one step of the prompt from both of its states. That the grammar rules look for the right tokens is not judged here (C11, C18). A newline counts as no token.'''),
 'C19': ('typestate (guard entered, value seen or not, guard left) of the conversions by abstract interpretation per kind of value, call graph recursion, provenance of what is converted without the guard, write-once fields',
   'Every recursion of the conversions of values to text, including through iterators and closures of the standard library. For each kind of value, a part is converted only while the guard is entered for this very value and has reported that it is not being converted already; parts converted without the guard are fields no code writes after construction, which cannot close a cycle. The guard is left as often as entered, is made by the outermost conversion only, looks for the value before adding it and in the whole list. Not decided: how deep an acyclic nesting the native stack allows; hashing and comparing such values (not part of the property).'),
 'C20': ('product of the walk over the source with open/closed and taken/put-out states (abstract interpretation, all token kinds and character classes), and tables of what each formatter writes per kind and character from constant propagation',
   'Both monomorphizations of the highlighter (HTML formatter, web terminal formatter). Each character taken from the source is put out exactly once and unchanged, elements never nest and end with the kind they began with, the walk ends with nothing open and the source used up; for every kind that is begun, with and without the option to leave it out, the text written at its start is one opening tag and the text written at its end closes it, or both are nothing; every character a formatter treats apart or that has a meaning in the output is written as an entity of that very character.'),
 'C21': ('compile-time assertions generated from the interpreter\'s type layouts and compiled against the C header, constant propagation and typestate of the conversions per kind of value and per code, signature and calling convention of exchanged function pointers',
   'Layout (sizes, alignment, offsets, codes, widths and kinds of the field each code uses, roles of the array fields) is asserted against the C header by the C compiler; for each of the kinds of values of the interpreter, the conversion gives the code and field of the header or an error; for each code, a result is read from the header\'s field and made into a value of that kind; functions given to libraries are extern "C" and have the types the header calls them with.'),
}
NOT = {
 'C13': 'Termination needs a measure for every loop of the compiler. For the parser it would be tokens left, but error recovery keeps the position and counts on run-time facts (an error limit, delayed input, re-queued tokens), and passes over the tree and the resolver loop over run-time lengths; a rule over the syntax of loops would either alarm on correct loops or rest on an unchecked list of exceptions. The parts that are structural are covered elsewhere: the scanner takes characters or stops in every state (C31), the grammar rules take the tokens they should (C22, C24).',
 'N01': 'Numerical results quantify over run-time operands; no static argument in reach bounds them, and comparing against a second implementation would be testing.',
 'N02': 'The selected elements depend on run-time lengths and bounds; the arithmetic is value-level and outside what flow or effect analyses of the source decide.',
 'N03': 'Panic and exhaustion freedom of the whole interpreter depends on run-time values at hundreds of indexing and arithmetic sites; the clauses that are structural are claimed separately (C01, C03, C11, C19, C25).',
 'N05': 'Output equality of two executions quantifies over program values; the structural clauses are claimed as C04 (folding uses the same operators in the same operand order) and C16 (no reordering of effects).',
 'N06': 'The results of sorting, searching and combinatorial functions are value-level specifications over unbounded inputs.',
}
