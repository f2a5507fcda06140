prop("C03", "List accessors and constructors compute the documented elements",
 "For every list value, building, selecting, slicing, joining, flattening, reversing, sorting and searching operations return exactly the elements their description says, in order, and leave their arguments unchanged. An index or count outside the list, or an argument that is not a list, gives the documented result or an error, never a crash or a wrong element.",
 ["inputs", "programs"], "All lists (empty, nested, dotted where accepted, long), all counts and indices, and all nestings of the operations.",
 "The tests apply each function to one or two short lists; they do not cross empty, nested and long lists with every boundary index, nor compose operations.",
 ["prim_list_access.go", "prim_list_manipulation.go", "prim_list_functions.go", "list_access.go", "data.go"],
 [("element access", "prim_list_access.go, list_access.go"), ("list building", "prim_list_manipulation.go"), ("cell to array conversions", "data.go ToArray/ArrayToList")], STD)
prop("C04", "Higher-order operations call their function on the right elements, in order",
 "Mapping, folding, filtering, partitioning, searching and applying operations call the given function once for each element (or tuple) the description says, in that order, with those arguments, stop where they say they stop, and combine the results as described. An error raised by the function ends the operation with an error. What the caller's variables are called makes no difference.",
 ["inputs", "programs"], "All lists and tuples of lists of unequal lengths, all functions (primitive, lambda, closure, effectful, failing) and nestings of the operations.",
 "The tests use pure functions on one short list, which cannot see call order, call counts, early stop, or what happens when the callback fails or returns an empty list.",
 ["prim_list_functions.go", "prim_special_forms.go", "primitive_function.go", "function.go"],
 [("iteration and call of the function", "prim_list_functions.go"), ("applying to evaluated arguments", "function.go, primitive_function.go ApplyWithoutEval")], STD)
prop("C05", "Mutation changes exactly the addressed cell and every alias sees it",
 "A destructive operation on a variable, list cell or list position changes that place and nothing else; every other name or structure sharing the cell sees the new content and everything not sharing it is unaffected. A destructive operation that reports an error has changed nothing.",
 ["histories"], "All histories of mutations and reads over shared and copied list structure, including literals, rest-parameter lists and closure variables.",
 "Each test performs one mutation on a fresh list and looks at that list only; sharing, sequences of mutations and failed mutations are not observed.",
 ["prim_mutators.go", "prim_special_forms.go", "prim_list_manipulation.go", "data.go", "symbol_table_frame.go"],
 [("cell update", "prim_mutators.go"), ("variable update", "symbol_table_frame.go SetTo")], STD)
prop("C06", "Set operations are the set-theoretic operations on lists",
 "Union, intersection, difference and duplicate removal return lists without repeated elements whose members are exactly those of the mathematical result under the language's equality, keeping the order of first appearance, for any number of operands.",
 ["inputs"], "All tuples of lists, with repeated, nested and mixed-type elements.",
 "The tests check a few small integer lists; structured elements, repeated elements inside one operand and more than two operands are not covered.",
 ["prim_list_set.go"], [("membership by structural equality", "prim_list_set.go, data.go IsEqual")], STD)
prop("C07", "Association lists behave as finite maps",
 "After any sequence of additions, removals and look-ups, looking up a key yields the value most recently associated with an equal key, or the stated absence result when there is none; converting to and from other shapes keeps exactly the associations.",
 ["histories"], "All sequences of alist operations with keys of every type, including keys equal but not identical.",
 "The tests look up symbols in one literal alist; histories mixing additions, shadowing, removal and structured keys are out of their reach.",
 ["prim_alist.go", "data.go"], [("association and removal", "data.go Acons, Alist, Assoc, Dissoc; prim_alist.go")], STD)
prop("C08", "Equality is structural, an equivalence, and consistent with copying",
 "Two values are equal exactly when they have the same type and content, compared recursively through lists, alists, byte arrays and frames; equality is reflexive, symmetric and, among values of one type, transitive. An association list equals another, or a plain list of pairs, that maps the same keys to equal values, whichever of the two comes first. Functions, environments, channels and other objects are equal only to themselves. A copy is equal to its original and shares no mutable part with it.",
 ["inputs", "histories"], "All pairs and triples of values of every data type, including near-misses that differ in one place, and all mutations of a copy or of its original.",
 "The tests compare a handful of small pairs; the symmetric and near-miss cases, different slot names, dotted tails, and mutation after copying are not exercised.",
 ["data.go", "prim_relative_logical.go", "prim_list_manipulation.go", "frame.go"],
 [("recursive comparison", "data.go IsEqual, IsEqv, IsEq"), ("deep copy", "data.go Copy, frame.go")], STD)
prop("C09", "Names are lexically scoped and closures keep and share their environment",
 "A reference to a variable means the innermost enclosing binding in the program text; binding forms do not disturb outer bindings of the same name and assignment changes the binding the reference would see. A closure keeps the bindings visible where it was created alive and shares them with every closure created in the same activation, each activation having its own. The definition-of a function is the definition it was made by, under the name it was given then.",
 ["programs", "histories"], "All nestings of definitions, let-forms, functions with fixed and rest parameters, recursion and assignments, with names that shadow one another.",
 "The tests contain a few closures and lets with distinct names; shadowing patterns, interleavings of calls to several closures over one variable, and redefinition histories are unbounded.",
 ["symbol_table_frame.go", "function.go", "prim_special_forms.go", "data.go"],
 [("environment chain", "symbol_table_frame.go"), ("parameter binding", "function.go makeLocalBindings"), ("let forms", "prim_special_forms.go")], STD)
prop("C10", "Control forms evaluate exactly the operands they should, once, in order",
 "Conditionals, sequencing, short-circuit logic, case selection, loops, and the threading forms evaluate exactly those operands their meaning requires, each exactly once per use and left to right, and return the value of the selected operand; the arguments of an ordinary call are each evaluated once, left to right.",
 ["programs"], "All nestings of control forms with operands that have observable effects or raise errors.",
 "The tests look at values of pure expressions, which cannot tell an operand evaluated twice, too early, or needlessly.",
 ["prim_special_forms.go", "prim_relative_logical.go", "primitive_function.go", "data.go"],
 [("special forms", "prim_special_forms.go"), ("argument evaluation", "primitive_function.go Apply, function.go")], STD)
prop("C20", "Integer arithmetic and comparison are exact 64-bit operations",
 "Every integer operation gives the two's-complement 64-bit result (or an error for division by zero) and every integer comparison agrees with the mathematical order, for every pair of 64-bit integers, at any number of operands. Number-list helpers (ranges, minima, maxima, predicates) agree with them.",
 ["inputs", "programs"], "All 64-bit integers including the extremes and values beyond float precision, all operand counts.",
 "The tests use small integers, for which rounding through floating point and overflow are invisible.",
 ["prim_math.go", "prim_relative_logical.go"], [("integer paths", "prim_math.go"), ("comparison", "prim_relative_logical.go")], STD)
prop("C21", "Float and mixed arithmetic follow single-precision semantics",
 "Arithmetic on floats, or on a mixture of integers and floats, gives the single-precision result of converting each operand to a float and combining them left to right; rounding, truncation, square root, exponent and conversion functions agree with their mathematical meaning; a non-numeric operand is always an error.",
 ["inputs", "programs"], "All float values, mixtures of integers and floats in every position, and non-numbers in every position.",
 "The tests use a few exactly representable values in fixed positions.",
 ["prim_math.go", "float_math_test.go"], [("float paths and coercion", "prim_math.go")], STD)
prop("C01", "What is printed reads back as the same value",
 "The printed form of any data value made of numbers, strings, symbols, booleans, lists, alists, byte arrays and frames, read again and evaluated as a literal, is a value equal to the original; printing is a fixed point of reading. Comments and white space between tokens never change what is read.",
 ["inputs"], "All finite non-cyclic data values, all string contents and float values, and all layouts of the printed text.",
 "The tests print and read a few short lists; special characters in strings, extreme floats, quote forms, dotted tails and nested containers are not round-tripped.",
 ["data.go", "parser.go", "tokenizer.go"], [("printing", "data.go String"), ("reading", "parser.go, tokenizer.go")],
 "Exploration: round trip of generated values built through the Go API and through source text, compared structurally by the harness. Trusts the harness's structural comparison; excludes cyclic data and the one-element list (quote), whose printed form a test of the project pins.",
 technique="property-based testing: generated data values, round-trip oracle (print, read, compare) with layout metamorphosis, shrinking")
prop("C02", "The reader accepts exactly the grammar and never loses text",
 "Reading any text yields either the data the grammar gives it or an error, and never crashes, hangs, or silently drops or alters part of the text: token classification, nesting, quoting, number ranges, byte arrays, frames, dotted pairs, comments and end of input. A program's top-level forms are evaluated in order, all of them.",
 ["inputs"], "All source texts: well-formed ones in any layout, mutations of them, and arbitrary character sequences.",
 "The tests read a few dozen well-formed snippets; malformed, truncated and adversarial texts are unbounded.",
 ["tokenizer.go", "parser.go"], [("token classification", "tokenizer.go"), ("expression grammar", "parser.go"), ("program loop", "parser.go ParseAndEvalAll")],
 "Exploration: the oracle is an independent reader (harness/m_read.go) written from the documented grammar; inputs on which the grammar is silent are only required not to crash or hang.",
 technique="grammar-based and mutational fuzzing of the reader against an independent reference reader, shrinking")
prop("C12", "Quasiquotation and macro expansion build exactly the templated forms",
 "A quasiquote template evaluates to its structure with every unquote at its own nesting level replaced by a value and every splice by the elements of a list, nothing else evaluated, once, in order. A macro receives its argument forms unevaluated, its expansion is what its body computes in its defining scope, and calling it means evaluating that expansion where it is called.",
 ["inputs", "programs"], "All templates (nested levels, splices of every length, dotted tails) and all macros over them, including macros that expand to macros and definitions.",
 "The tests check a dozen templates and a few macros; the crossing of nesting levels, empty and absent values, and scopes of definition and use is not sampled.",
 ["prim_macros.go", "macro.go", "prim_special_forms.go"], [("template processing", "prim_macros.go processQuasiquoted"), ("expansion", "macro.go Expand, internalApply")], STD)
prop("C17", "Frames look slots up through their parents and change only themselves",
 "Reading a slot gives the frame's own value if it has one, else one found through its parents; reading an absent slot is an error or absence as stated; writing or removing a slot affects that frame alone; presence tests and slot listings agree with reading; cloning makes an independent frame. The shortcut notations mean the same as the named operations. Parent cycles do no harm.",
 ["histories"], "All histories of slot reads, writes, removals, clones and re-parentings over graphs of frames, including cycles and parent slots that hold no frame.",
 "The tests use two or three frames and one operation each; interleavings over inheritance graphs with aliases and cycles are unbounded.",
 ["frame.go", "prim_frame.go", "data.go"], [("slot lookup and parents", "frame.go"), ("frame primitives", "prim_frame.go"), ("shortcuts", "data.go Eval")], STD)
prop("C18", "Methods run against the receiving frame",
 "A function called through a frame slot sees the receiver as self and the receiver's slots, own and inherited, as variables; assigning such a variable changes the receiver's slot; parameters and local bindings shadow slots; a message to a parent's method still runs against the original receiver; nested sends restore the caller's receiver.",
 ["histories", "programs"], "All histories of message sends over frames with generated methods that read, assign, shadow and send.",
 "The tests define a few one-line methods; nested sends, shadowing and inherited methods assigning slots are not crossed.",
 ["frame.go", "prim_frame.go", "function.go", "symbol_table_frame.go"], [("method environment", "function.go internalApply, symbol_table_frame.go NewSymbolTableFrameBelowWithFrame"), ("message dispatch", "prim_frame.go")],
 STD + " What a method reached by send-super sees as variables is a recorded defect and is not compared.")
prop("C22", "String operations compute the documented texts, in place only when marked",
 "Splitting, joining, trimming, case conversion, comparison, searching, slicing and concatenation of strings return the text their description says for every argument; joining the pieces of a split restores the string; every out-of-range position or non-string argument is an error. Only the operations marked ! change a string, which every alias then sees.",
 ["inputs", "histories"], "All strings (empty, repeated separators, white space, upper/lower case, non-ASCII letters), all positions, and histories mixing in-place changes with aliases. Lengths and positions count bytes; a position inside a character is not specified.",
 "The tests apply each operation to one or two literals; empty strings, boundary positions, repeated separators and aliases of a changed string are not crossed.",
 ["prim_string.go", "prim_system.go", "data.go"], [("string operations", "prim_string.go"), ("concatenation", "prim_system.go concatStringForms"), ("in-place change", "data.go SetStringValue")], STD)
prop("C23", "format follows its control string exactly",
 "format copies the control string with each directive replaced by its expansion: the next argument as text or in written form, padded on the side and to the width its prefix says (a number, the next argument, or the count of remaining arguments), newlines and tildes repeated as asked, line breaks skipped. A directive affects only itself. An unknown or incomplete directive, and too few or too many arguments, are errors.",
 ["inputs"], "All control strings over all directives and prefixes, with all numbers and types of arguments.",
 "The tests use one directive at a time; interactions between consecutive directives, truncated control strings and missing arguments are not sampled.",
 ["prim_io.go"], [("directive interpretation", "prim_io.go FormatImpl")], STD)
prop("C24", "Byte arrays and bit operations act on exactly the addressed bytes and bits",
 "Conversions between lists and byte arrays are inverse; reading, slicing, appending and replacing address exactly the given positions, out-of-range positions and values that are no byte are errors and change nothing; only the operations marked ! change an array, which every alias then sees and no copy or slice does. Bitwise and, or, complement and shifts act on the two's-complement bits.",
 ["inputs", "histories"], "All byte arrays, positions, counts and values including the extremes, all histories mixing in-place changes with slices, copies and aliases; complement is specified for 32-bit values, shifts for non-negative counts.",
 "The tests apply each operation to one or two short arrays; sharing between slices and originals, failed changes, and boundary counts are not sampled.",
 ["prim_bytearray.go", "prim_binary.go", "prim_list_access.go"], [("byte arrays", "prim_bytearray.go"), ("bit operations", "prim_binary.go"), ("slicing", "prim_list_access.go take, drop")], STD)
prop("C19", "JSON and Lisp data convert into each other without loss",
 "Converting a JSON text gives the corresponding Lisp data (objects as frames or alists, arrays as lists in order and of the same length, every number, string, boolean under its key), and converting Lisp data gives a valid JSON text with the same content; the two conversions are inverse up to the values JSON or Lisp cannot tell apart (null, empty list). Converting a Go value equals converting its JSON encoding. Malformed text is reported and harms nothing.",
 ["inputs"], "All JSON values and texts in any layout, all Lisp data with a JSON form, Go structs, maps, slices and pointers with the usual tags; absent values and empty lists are identified; methods, byte slices and embedded structs are left out.",
 "The tests convert about ten fixed documents; nulls in arrays, numbers beyond float precision, keys containing colons, and self-containing frames are not exercised.",
 ["json_support.go", "json_frame_support.go", "prim_frame.go"], [("alist conversion", "json_support.go"), ("frame conversion and reflection", "json_frame_support.go")],
 "Exploration: the oracle is the generated tree itself and Go's encoding/json as decoder and encoder; integral floats that have fewer digits in JSON than their value are not compared.",
 technique="property-based testing: generated JSON trees and Go values, round-trip and differential oracle against encoding/json, mutational fuzzing of the texts, shrinking")
prop("C11", "A call with the wrong number of arguments is an error and runs nothing",
 "Every primitive, special form, function and macro, built in or supplied by the host, accepts exactly the argument counts its declaration allows. A call with another count is an error that names the operation, evaluates no part of its body and has no effect; an allowed count is never rejected for its count. Rest parameters receive all the remaining arguments as a list.",
 ["programs", "configurations"], "All primitives, all host-supplied arity specifications (exact, minimum, ranges, alternatives) and all parameter lists, each with every argument count up to beyond the limits.",
 "The tests call a handful of primitives with one wrong count; the arity language and the counts next to each limit are not crossed.",
 ["prim_primitive_function.go", "function.go", "macro.go", "primitive_function.go"], [("arity of primitives", "primitive_function.go checkArgumentCount"), ("parameter binding", "function.go makeLocalBindings"), ("macro parameters", "macro.go")],
 "Exploration: an independent interpreter of the arity language and of parameter lists decides accept or reject for generated calls; a counter in the callee shows whether it ran.",
 technique="property-based testing: generated arity specifications and calls against an independent interpretation of them, shrinking")
prop("C25", "No program can crash the interpreter",
 "Evaluating any program text ends in a value or an error: no well- or ill-typed call of any primitive or form, with any combination of argument kinds, brings down the host process with a Go panic, a fatal runtime error, or memory corruption, or keeps it from returning when the program itself does not loop.",
 ["inputs", "programs"], "All primitives and forms with arguments of every type including foreign objects, improper lists, empty containers, extreme numbers and each other's results. Endless recursion and requests for huge amounts of memory are resource exhaustion and left out, as are cyclic data.",
 "The tests call each primitive with the intended types; the product of primitives and argument types is not covered.",
 ["prim_list_access.go", "prim_string.go", "prim_system.go", "prim_frame.go", "data.go"], [("argument checks", "prim_*.go"), ("accessors that assume a type", "data.go")],
 "Exploration: an implicit oracle (no panic, no fatal error, termination) over generated programs of nested calls; each runs in a worker process that is watched for its death and for time.",
 technique="grammar-based fuzzing: generated programs over all primitives and argument types, oracle: no panic, no process death, termination; shrinking")
prop("C13", "An error stops exactly what it must and reaches its handler",
 "An error, raised by the program or by an operation, abandons the evaluations in progress up to the nearest on-error and nothing else: effects made before it stay, nothing after it in the abandoned part runs, the handler runs once with a text that contains the message raised, and its value (or its own error) is the value of on-error. Without an error the value, or the third operand called without arguments, is the result and no handler is evaluated. Afterwards the interpreter works as before.",
 ["histories", "programs"], "All nestings of error sources, error handlers (inspecting, rethrowing, failing, of the wrong kind) and surrounding constructs, with mutations around them.",
 "The tests raise an error directly inside one on-error; errors crossing loops, higher-order functions, methods, macros and nested handlers are not sampled.",
 ["prim_system.go", "data.go", "function.go", "prim_list_functions.go"], [("on-error, error", "prim_system.go"), ("error propagation", "data.go Eval/Apply, function.go")], STD)
prop("C14", "Protected bindings cannot be changed by any program",
 "The global bindings of primitives, special forms and constants, and those a host protects, keep their value whatever a program does: definition, assignment, macro definition and environment operations on them, in whatever environment and through whatever function, fail with an error and change nothing. A program may shadow such a name locally; unprotected names can be changed.",
 ["histories", "programs"], "All protected names, all ways to bind or assign a name, from all kinds of scopes and environments.",
 "The tests try define and set! on one or two names; environment operations, macros, eval in other environments and methods are not tried.",
 ["symbol_table_frame.go", "binding.go", "prim_environment.go", "prim_special_forms.go"], [("protection", "symbol_table_frame.go BindTo, SetTo, BindLocallyTo"), ("environment operations", "prim_environment.go")],
 STD + " After each program all protected global bindings are compared by identity with what they held before it.")
prop("C15", "A restricted environment cannot reach restricted operations",
 "In an environment marked restricted, and in every environment created below it afterwards, calling an operation marked restricted (loading, files, processes, other environments, the debugger, and the host's own) is refused with an error, its operands are not evaluated and it has no effect, whether it is called by name, as a value, through eval, macros, methods, closures, higher-order functions or error handlers, and code cannot get at an unrestricted environment through operations that are not restricted. Functions made in an unrestricted environment keep working.",
 ["histories", "programs"], "All restricted operations (built-in and host-made), all ways of reaching a call, all mixtures of environments restricted at different times. Handing a restricted operation as a value to an unrestricted function is not specified.",
 "The tests call one or two restricted primitives directly; reaching them as values, through nested scopes, eval and closures is not tried.",
 ["primitive_function.go", "symbol_table_frame.go", "prim_environment.go"], [("refusal", "primitive_function.go Apply, ApplyWithoutEval"), ("inheritance of the mark", "symbol_table_frame.go NewSymbolTableFrameBelow"), ("environment access", "prim_environment.go")], STD)
prop("C16", "Environments as values show and change exactly their bindings",
 "An environment value shows exactly the names bound in it, their values and kinds; looking up through it sees its parents; defining in it binds there alone, assigning changes the nearest binding, and both are seen by all code running there, as all changes made by that code are seen through it. A top-level environment is found by the name it was made with, whatever functions and binding forms ran since. eval in an environment means running there. Wrong operands and unbound names give the stated answers or errors.",
 ["histories"], "All histories of definitions, assignments, macro definitions and queries over several related environments, through environment operations, eval and closures.",
 "The tests query one environment right after creating it; interleavings of changes through code and through environment operations are not sampled.",
 ["prim_environment.go", "symbol_table_frame.go", "prim_system.go"], [("environment operations", "prim_environment.go"), ("lookup", "symbol_table_frame.go"), ("eval", "prim_system.go EvalImpl")], STD)
prop("C26", "Channels are bounded FIFO queues between processes",
 "A channel delivers every value written to it exactly once, in the order written, to whichever readers come; at most its capacity is stored, a write beyond that waits (or, as a try, gives #f at once), a channel without capacity hands over directly, reading waits (or gives #f) while it is empty. After closing, what is stored can still be read, then readers get (() #f), writing and closing again are errors and waiting readers wake up. This holds for any number of processes, started by fork, schedule or the host.",
 ["schedules", "histories"], "All sequential histories over several channels; concurrent histories of 2-5 processes (linearizability) and larger producer/consumer runs under random schedules.",
 "The tests write and read one channel in one thread; concurrent histories have too many outcomes for examples.",
 ["prim_channel.go"], [("channel operations", "prim_channel.go"), ("the c<- and <-c shortcuts", "data.go postProcessShortcuts")],
 "Exploration: model-based comparison for sequential histories; recorded concurrent histories are checked for linearizability against a sequential queue; long runs are checked for loss, duplication and order.",
 technique="stateful property-based testing with generated schedules: model comparison and a linearizability check of recorded histories, shrinking")
prop("C27", "Processes and atomics keep their promises under any schedule",
 "Atomics behave as one indivisible integer whatever processes use them. A forked function runs once with its process and the arguments; join gives its value (() if it failed) to exactly one caller and every other join is an error, joining itself gives (). One function can run in any number of processes, which do not mix up. A wake-up is kept until a sleep consumes it; scheduled functions run once, not before their time, counted anew from a reset, and never once abandoned in time. What a process did is visible after joining it.",
 ["schedules", "histories"], "All schedule-independent histories of process and atomic operations, and concurrent scenes under random schedules and delays, under the race detector.",
 "The tests fork one process at a time and use atomics in one thread.",
 ["prim_concurrency.go", "function.go"], [("processes", "prim_concurrency.go"), ("atomics", "prim_concurrency.go"), ("calls by a process", "function.go internalApply")],
 "Exploration: model-based comparison of schedule-independent programs; linearizability of recorded histories on atomics; invariants of joins, wake-ups and timers over random schedules; Go's race detector watches every case.",
 technique="stateful property-based testing with generated schedules: model comparison, linearizability check, invariants, race detector as an oracle; shrinking")

prop("C28", "Programs running at the same time do not disturb each other",
 "A program evaluated while other programs are evaluated in other threads or processes gives, form by form, the values and errors it gives alone, when they share only things that none of them changes: global functions, macros, prototypes and data. Threads may also share and change a frame, an environment's set of names, the table of symbols, the gensym counters and the top-level environments: each operation then happens as if at one moment (a slot holds what was last stored, no definition is lost, a listing has what was defined before it), nothing crashes and nothing waits for ever, with cyclic parents too.",
 ["schedules", "inputs", "histories"], "Sets of 2-5 random programs run together, and histories of 2-5 threads on shared frames, environments, symbols and gensyms. Concurrent assignment of one variable is unspecified.",
 "The tests evaluate in one thread, and races need particular interleavings.",
 ["symbol_table_frame.go", "frame.go", "data.go", "function.go", "prim_frame.go"], [("environments", "symbol_table_frame.go"), ("frames", "frame.go"), ("symbols", "symbol_table_frame.go Intern"), ("calls", "function.go internalApply")],
 "Exploration: each program's results against the reference model running it alone; linearizability of slot histories; invariants of listings, definitions, gensyms; deadlock by time-out; Go's race detector watches every case.",
 technique="property-based testing with generated programs and schedules: model comparison, linearizability check, invariants, race detector as an oracle")

prop("C29", "Ports read and write files exactly",
 "What write-string, write, newline, write-bytes and format send to a port (standard output when none is given, or #t for format) is in its file, byte for byte and in order, when the operation returns; opening for output empties the file, or appends to it when told to, and creates it if need be; opening for input changes nothing. read gives the expressions of a file one after the other, then the end-of-file object and nothing else is one; ports read at the same time do not disturb each other. A closed port, a port of the wrong direction, a missing file or an argument of the wrong type is an error that changes no file. load evaluates the forms of a file in order; list-directory gives the names that match.",
 ["inputs", "histories"], "All histories of port operations on a set of files, with any text and bytes. Reading on after a malformed expression, or a file that changes while it is read, is unspecified, and so is the symbol __EOF__ in a file.",
 "The tests hardly touch files; mistakes need several ports, larger files or particular orders.",
 ["prim_io.go", "parser.go", "tokenizer.go", "prim_system.go"], [("ports", "prim_io.go"), ("reading from files", "tokenizer.go NewTokenizerFromFile, parser.go ParseObjectFromFileInEnv")],
 "Exploration: random histories in a scratch directory, every result and every file compared with a model of files, positions and the reader.",
 technique="stateful model-based property testing with generated histories of file operations; shrinking")

prop("C30", "Go programs and Lisp share values, variables and functions faithfully",
 "What the exported constructors, accessors, predicates and list, alist, string and frame functions are called with comes back unchanged: each gives the value its name says, changes nothing but what a destructive one is for, and sharing between values is kept. Environments made and changed from Go (new below another, bind, bind locally or protected, set, delete, look up) agree at every step with what Lisp code evaluated in them sees and does. A function written in Go is called with its evaluated arguments (a special form with the forms), once each and in order, in the caller's environment; its value, its error, its host objects and its calls back into Lisp behave as if written in Lisp.",
 ["inputs", "histories"], "All histories of calls of the exported functions on values and environments, and all programs whose calls go through Go. A nil pointer as a list element is not specified.",
 "The tests use the Go API with fixed values and hardly mix it with evaluation.",
 ["data.go", "util.go", "list_access.go", "symbol_table_frame.go", "primitive_function.go", "frame.go"], [("values", "data.go, util.go, list_access.go"), ("environments", "symbol_table_frame.go"), ("functions in Go", "primitive_function.go Apply, data.go Apply, ApplyWithoutEval")],
 "Exploration: random call histories against a model of cells, strings, frames and environments, everything compared after each call; random programs with Go functions in the way, against the reference interpreter.",
 technique="stateful model-based property testing of the Go API and of programs that call Go; shrinking")
prop("C31", "Watching a program does not change it, and the record is true",
 "A program that is traced, profiled (to a file or to the standard output) or run in an interactive session has the same results, effects and errors as one that is not. The profile is one readable record per event: every call of a function, primitive or form begins and ends once, properly nested also when errors pass through, numbered in the order of the calls, with the right kind and name, and exactly the calls the program makes. The trace shows each expression evaluated followed by its value. A profile that cannot be written is an error before anything is evaluated.",
 ["programs"], "All programs. The calls a sort makes of its comparison, and the quotes made to hand on evaluated arguments, are not specified.",
 "The tests neither trace nor profile.",
 ["profiling.go", "prim_system.go", "prim_debug.go", "data.go", "function.go", "primitive_function.go"], [("profiler", "profiling.go; Enter/Exit in function.go, primitive_function.go"), ("trace", "data.go logEval, logResult")],
 "Exploration: random programs run plain, traced, profiled and interactive; outcome and effects against the reference interpreter, the record of the profiler event by event against the calls the reference interpreter made.",
 technique="model-based property testing with a metamorphic relation (watched = unwatched) and a model of the call record; shrinking")
prop("C32", "The command line runs what it is given and reports it faithfully",
 "The golisp command loads the files it is given in order, going on after one that fails, and then evaluates each line typed, in one environment that sees what the files defined, answering each with its value or its error until it is told to quit. With -t it runs the tests of a file, or of every file of a directory whose name ends in _test.lsp, in order: each test starts from its context's setup, assertions evaluate their operands and pass or fail by their meaning, an error ends its test only, and the report counts and lists exactly the passes, failures and errors; a run that cannot be finished says so.",
 ["programs", "histories"], "All sets of files, lines and tests. Exit status and the wording of errors are not specified.",
 "The tests are run by the test runner: a runner that counted wrongly would not be noticed, and sessions are not tested at all.",
 ["main/golisp.go", "repl.go", "lisp/testing.lsp", "parser.go", "prim_io.go"], [("session", "repl.go, main/golisp.go"), ("test runner", "lisp/testing.lsp")],
 "Exploration: each case is a run of the built command on generated files and lines; its output is compared with what the reference interpreter and a model of the test runner predict.",
 technique="model-based property testing of whole processes (sessions and test runs) against a reference model; shrinking")
prop("C33", "Streams are lazy, memoised and equal to the sequences they describe",
 "The streams of lisp/streams.lsp have the elements their operations describe: constructing, mapping (over several), filtering, adding, scaling, merging, summing and enumerating, over finite, infinite and self-referring streams, and the ready-made streams. An element is computed when it is first asked for, not before, and at most once however often and in whatever order it is looked at; an error while computing one is an error where it is asked for and leaves the stream usable.",
 ["programs", "histories"], "All compositions of the stream operations and all orders of looking at their elements. Not specified: the first or rest of an empty stream, a later stream of a map ending before the first, order of effects within one form only up to the definition order.",
 "There are no tests of streams.",
 ["lisp/streams.lsp", "macro.go", "function.go"], [("memoised promise", "lisp/streams.lsp memo-proc, delay, force"), ("operations", "lisp/streams.lsp")],
 "Exploration: programs over random compositions of streams against a model of lazy memoised streams written in Go; values, errors and effects compared form by form.",
 technique="model-based property testing of programs over lazy streams; shrinking")
prop("C34", "Host services do for a script exactly what was asked",
 "A generated name is a symbol (naked when asked so) made of the prefix - GENSYM when none is given - a hyphen and a number, and never one given before; interning a string always gives the one symbol of that name. A logged message, whatever its text, reaches the standard output and every attached logger unchanged, each once. Sleeping lasts at least the time asked for; timing evaluates its expression once and gives the elapsed milliseconds; the clock gives the current time; a random byte lies in 0..255 and varies. exec runs the named program with exactly the given arguments (strings and symbols as they are, other values as printed) and is an error when the command is no string or cannot be started. In a host that is not interactive, quit does nothing and the flags of the debugging aids read back as set without turning errors into anything else. An operand that fails, or is of the wrong type, is an error.",
 ["inputs", "histories"], "All strings and values as prefixes, messages and arguments, all numbers of loggers and all histories of uses.",
 "The tests generate two names and log nothing; freshness over a history, texts with format directives, several loggers and arguments with special characters are not sampled.",
 ["prim_system.go", "logging.go", "prim_debug.go", "prim_math.go"],
 [("name counters", "prim_system.go gensymHelper, InternImpl"), ("loggers", "logging.go"), ("running programs", "prim_system.go ExecImpl"), ("flags", "prim_debug.go")],
 "Exploration: histories of operations, each judged by its own oracle (freshness set, reference loggers, a script that records its arguments, bounds from the harness's clock). Upper bounds on time are only those measured around the call.",
 technique="stateful property-based testing of histories against per-operation oracles; shrinking")
prop("C35", "Profile reports account for every recorded call",
 "For every record of calls that was loaded, the report by function has one row for each name called (of the chosen kind, or of all kinds) with the exact number of its calls, their total time and the average, and the tree shows every call under its caller with its total time, the time in nested calls and the difference. A call whose end was not recorded, and what is inside it, is left out without disturbing the rest; loading another record replaces what was loaded.",
 ["inputs"], "All well-nested records, with names repeated at any place and depth, and records that were cut off.",
 "There are no tests of the reports.",
 ["lisp/profiling.lsp", "profiling.go", "prim_io.go", "prim_string.go"],
 [("rebuilding the calls", "lisp/profiling.lsp load-profile"), ("reports", "lisp/profiling.lsp by-function, print-tree")],
 "Exploration: generated and recorded profiles; the reports are parsed and compared with sums computed from the record by the harness. The order of rows and of calls and the layout of columns are not specified.",
 technique="property-based testing: generated call records, report against sums computed from the record; shrinking")
prop("C36", "The debugger stops where it was told to and leaves the program as it found it",
 "In a session the program stops where (debug) is evaluated, before a call expression of a function marked for debugging on entry, at the next evaluation after a single step, at the next evaluation in the frame the stopped one was entered from after running up, and, while errors are debugged, where error is called and when a line ends in an error. At a stop the expression about to be evaluated is shown; what is typed there is evaluated in the frame that was stopped, with its variables and effects, and may fail, be unreadable or stop again without ending the stop; frames, their variables and the marked functions are shown as they are; a malformed command changes nothing. Continuing goes on exactly as if there had been no stop; returning a value makes it the value of the evaluation that was stopped, and of no other. No typed command ends the session but quitting.",
 ["programs", "histories"], "All programs and all sequences of commands. Not specified: tracing while stopped, marked functions called by map, apply and the like, which other errors stop where they are raised, the code shown for a frame after an error or a stop within a stop.",
 "The debugger has no tests.",
 ["prim_debug.go", "data.go", "repl.go", "symbol_table_frame.go"],
 [("stops", "data.go evalHelper, debugStop; prim_debug.go DebugImpl, ProcessError"), ("commands", "prim_debug.go DebugRepl"), ("frames shown", "symbol_table_frame.go Dump..."), ("session", "repl.go")],
 "Exploration: each case is an interactive session of the built command; a model of the debugger inside the reference interpreter decides which inputs are read where and predicts every response.",
 technique="stateful model-based property testing of whole sessions against a reference interpreter with a debugger; shrinking")
