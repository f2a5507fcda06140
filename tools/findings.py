fixed("C04", "applying a primitive to an empty argument list passes no argument, apply without a list is an error", "(apply list '()) passed one argument; (apply +) crashed")
fixed("C03", "flatten and list splicing do not append an extra empty list", "(flatten '((1) (2))) ended with an extra ()")
fixed("C12", "quasiquote keeps the tail of a dotted pair", "`(a . ,x) lost its tail")
fixed("C12", "unquoting an absent value in a nested quasiquote keeps its place", "`(`,,v) with a variable defined without a value lost the operand of the inner unquote")
fixed("C10", "an error in a do step expression is reported", "(do ((i 0 (car 5))) ...) ignored the error of a step expression")
fixed("C10", "-> and => pass on lists and symbols without evaluating them again", "(-> '(+ 1 2) list) evaluated the list again")
fixed("C09", "functions and macros whose parameter list is a single rest parameter receive their arguments", "((lambda (. args) args) 1 2) lost its arguments")
fixed("C05", "set-car!, set-cdr!, set-nth! and set! stop at an argument error instead of mutating", "an error while evaluating the new value still mutated the cell")
fixed("C05", "storing a computed empty list in a cell does not make the cell disappear", "(set-cdr! l (cdr '(1))) made later cells print as empty")
fixed("C08", "equality compares the tails of improper lists", "(eqv? '(1 . 2) '(1 . 3)) was true")
fixed("C08", "frames with different slot names are not equal", "frames of the same size with different slots compared equal or crashed")
fixed("C20", "compare integers, and take their absolute value, without rounding them to floats", "(< 16777216 16777217) was false")
fixed("C21", "arithmetic rejects a non-number that follows a float", "(+ 1.5 'a) was accepted")
fixed("C20", "remainder by zero is an error instead of a crash", "(% 1 0) crashed")
fixed("C20", "interval terminates at the limits of the integer range", "(interval 9223372036854775806 9223372036854775807) did not terminate")
fixed("C05", "append! to something that is not a list is an error instead of corrupting memory", "(append! 5 '(1)) wrote into unrelated memory")
fixed("C03", "general-car-cdr terminates on a negative path", "(general-car-cdr l -1) did not terminate")
fixed("C24", "take and drop treat a negative count as zero for bytearrays, as they do for lists", "(take -1 [1 2]) crashed")
fixed("C01", "backslashes in strings are escaped when printed, so that the text reads back", "a string with a backslash did not read back from its printed form")
fixed("C01", "floats print without an exponent, which the reader does not know", "1e+06.0 was printed for 1000000.0")
fixed("C01", "a list starting with quote that has more than one operand prints all its elements", "(quote a b) printed as 'a")
fixed("C02", "an unterminated string is an error, not the end of the input", "a program with an unterminated string was silently cut short")
fixed("C02", "a closing delimiter that closes nothing inside an expression is an error, not a symbol", "[1 ), {a: ] and ( ] were read with the delimiter as a symbol")
fixed("C02", "input that ends after a quote character or a dot is an error, not the end of the input", "(a . at the end of the input was silently dropped")
fixed("C02", "a negative literal in a bytearray is an error, not a different byte", "[-1] read as [255]")
fixed("C02", "an empty list at top level does not end the evaluation of a program", "forms after a top-level () were not evaluated")
fixed("C02", "the dot of a dotted pair may be followed by any white space", "a dot followed by a newline was read as a symbol")
fixed("C02", "NUL characters in source text are not silently dropped", "a NUL in a string or between tokens disappeared")
fixed("C02", "a number literal followed by a non-ASCII numeral is an error instead of losing the numeral", "1\\u00b2 was read as 1")
fixed("C17", "a parent slot that does not hold a frame is no parent, instead of a crash", "looking up a slot in {p*: 5} crashed")
fixed("C17", "printing frames that refer to each other terminates", "an error message or the printed form of a frame with a cyclic parent slot overflowed the stack and killed the process")
fixed("C08", "comparing and copying frames that contain themselves terminates", "equal? or copy of frames that contain themselves overflowed the stack and killed the process")
known("C18", "a method reached by send-super does not see the receiver's slots as variables", {"Forms": ["(define f {foo: (lambda () a)})", "(define g {parent*: f a: 5 foo: (lambda () (send-super foo:))})", "(send g foo:)"], "Child": False, "Expect": "5"})
fixed("C22", "string-capitalize handles an empty string and a non-ASCII first character", "(string-capitalize \"\") crashed; \"éa\" was split inside its first letter")
fixed("C22", "substring rejects a negative start instead of crashing", "(substring \"abc\" -1 2) crashed")
fixed("C08", "copying a structure copies the strings in it, which can be changed in place", "string-upcase! on a string of a copied list changed the original")
fixed("C23", "a format directive cut short by the end of the control string is an error instead of a crash", "(format #f \"~\") crashed")
fixed("C23", "the @ of a format directive affects that directive only", "(format #f \"~5@a|~5a|\" 1 2) padded both on the left")
fixed("C23", "a format directive without an argument left is an error", "(format #f \"~a\") printed ()")
fixed("C24", "extract-bytes rejects a count so large that it overflows", "(extract-bytes [1 2 3 4] 1 9223372036854775807) returned a shorter array instead of an error")
fixed("C19", "converting a frame to JSON keeps colons that belong to a key", "the JSON key \"a:\" came back as \"a\"")
fixed("C19", "converting alists to JSON keeps floats and booleans", "LispToJson turned every float and boolean into an empty string")
fixed("C19", "a null does not disappear from an array converted from JSON", "[1,null,2] lost its elements up to the null")
fixed("C19", "numbers converted from JSON keep all their digits, and out-of-range ones become floats", "9007199254740993 came back as 9007199254740992 and 1e20 as a negative integer")
fixed("C19", "converting a frame that contains itself to JSON terminates", "lisp->json of a frame with a cycle overflowed the stack and killed the process")
fixed("C19", "the JSON text null converts to an empty value instead of crashing", "JsonStringToLispWithFrames(\"null\") panicked on a zero reflect value")
fixed("C03", "flattening a list with a dotted pair inside is an error instead of an endless loop", "(flatten* '((a . 1))) never returned and ate all memory")
fixed("C05", "set-nth! outside the list changes nothing and needs an integer index", "(set-nth! l 0 9) and (set-nth! l 'a 9) overwrote the first element; (set-nth! '(1 . 2) 2 5) crashed")
fixed("C14", "environment-assign! does not replace protected bindings", "(environment-assign! (the-environment) 'lambda 0) replaced the lambda form for the whole interpreter")
fixed("C15", "procedure-environment does not let code leave a restricted environment", "in a restricted environment (eval '(load \"f\") (procedure-environment g)) ran load, g being any function of the global environment")
fixed("C13", "find and find-tail pass on the error of their predicate", "(on-error (find (lambda (x) (error \"boom\")) '(1)) (lambda (e) e)) reported that a predicate is needed, not boom")
fixed("C27", "every process has its own copy of the function it runs, and can tell that it is itself", "forking one function twice left both calls with the last process as their parentProcess (and a data race), so (join p) inside the first one waited for itself")
fixed("C26", "a channel size too big for the machine is an error instead of a crash", "(make-channel 9223372036854775807) crashed the process")
known("C18", "a function that is also bound to a variable is called without the receiver when the variable is read while the arguments of the call are evaluated (one flag per function says how it was last found; processes that call it both ways disturb each other too)", {"Forms": ["(define gl (lambda (a) (list a x)))", "(define fr {x: 5 g: gl m: (lambda () (map g (begin (list? gl) '(1 2))))})", "(send fr m:)"], "Child": False, "Expect": "((1 5) (2 5))"})
fixed("C28", "listing the bindings of an environment is safe while others are defined", "environment-bound-names and friends iterated a map that another process was changing: a fatal error of the runtime")
fixed("C28", "a frame is not locked while others are being locked, so that sharing frames between processes cannot deadlock", "looking up, printing, comparing or copying frames with cyclic parents while another process writes them waited for ever")
fixed("C28", "reading a slot is one step, so that it is not missed when another process removes it meanwhile", "get-slot returned () for a slot removed between its test for the slot and its lookup")
fixed("C29", "reading from one port does not lose what was read ahead from another", "reading from two ports in turn lost the rest of the first file: its reads gave the end-of-file object")
fixed("C29", "list-directory rejects arguments that are not strings", "(list-directory 5) listed the current directory")

fixed("C31", "a percent sign in a name appears as it is in a profile", "a call of % was recorded as '%!}(MISSING), which cannot be read")
fixed("C31", "profile reports a file it cannot write to as an error", "(profile 1 \"/none/r\") ended the process with a panic and (profile 1 5) ignored its file name")
fixed("C31", "the value of an empty list is traced like any other", "the trace of () had no line for its value (and an interactive session kept it as being evaluated)")
fixed("C32", "the test runner says when a file cannot be loaded", "golisp -t ended without a word when a test file could not be read or failed outside its tests")
known("C32", "assert-memq evaluates the object it searches for twice (lisp/testing.lsp, left as it is: part of the test machinery)", {"Kind": "test", "Files": [{"Name": "a_test.lsp", "Forms": ["(define n 0)", "(define (next!) (set! n (+ n 1)) n)"], "Ctx": [{"Label": "c", "Setup": ["(define x 1)"], "Its": [{"Label": "i", "Body": ["(assert-memq '(2) (next!))"]}]}]}], "Args": ["a_test.lsp"], "Lines": None, "Verbose": False})
known("C32", "the report of an error keeps only a part of a message that contains a full stop and a space (lisp/testing.lsp, left as it is: part of the test machinery)", {"Kind": "test", "Files": [{"Name": "a_test.lsp", "Forms": ["(define n 0)"], "Ctx": [{"Label": "c", "Setup": ["(define x 1)"], "Its": [{"Label": "i", "Body": ["(error \"two. parts\")"]}]}]}], "Args": ["a_test.lsp"], "Lines": None, "Verbose": False, "Strict": True})
fixed("C33", "scaling a finite stream stops at its end", "every look at the end of (scale-stream s k), s finite, was an error")
fixed("C34", "exec with a command that is no string is an error", "(exec 'true) reported that the command must be a string and ran it all the same; the error was lost")
fixed("C27", "delays too long for a duration are not cut to nothing", "(sleep n), (proc-sleep p n) and (schedule n f) with n beyond 292 years of milliseconds overflowed and ended or fired at once")
fixed("C36", "a session that stops at an error has an environment to stop in", "(debug-on-error #t) and then (undefd 1) ended the session with a nil pointer panic")
fixed("C36", "the debugger's entry commands without a name say so", "':(+' or ':(-' alone panicked and the program went on as if told to continue")
fixed("C36", "returning an unreadable value from the debugger is an error", "':r (list 1' returned () from the stopped evaluation")
fixed("C36", "a value returned from the debugger is that of the evaluation stopped", "':r 9' at a stop on entry called the function all the same and replaced the value of the first call it made; ':r nil' returned nothing")
fixed("C19", "a json transformation gets the node as it is, arrays too", "TransformJson evaluated the node it passes on: an array was taken for a call")
fixed("C25", "make-list with a size no list can have is an error", "(make-list 9223372036854775807 1) panicked the host")
fixed("C25", "a field width no string can have is an error", "(format #f \"~va\" 9223372036854775000 1) panicked the host")
fixed("C19", "struct tags omitempty and string mean what they mean in JSON", "a pointer to 0, \"\" or false marked omitempty was left out and an empty map was not; a float marked string became its value with six digits; an interface marked string was quoted")
fixed("C12", "an unquote in tail position is replaced by its value", "`(1 . ,x) gave (1 unquote x): an unquote after a dot was not replaced")
fixed("C08", "equality between a list and an association list does not depend on which comes first", "(equal? al '((a . 1))) was #t and (equal? '((a . 1)) al) was #f")
fixed("C16", "calls and binding forms are not top level environments", "calling a global function, or let and do at the top level, replaced a top-level environment of the same name for find-top-level-environment")
fixed("C04", "applying a primitive to values does not depend on what quote names in the caller", "(let ((quote 5)) (map - (list 1 2))) failed: the elements were passed as (quote x), evaluated in the caller's environment")
fixed("C08", "a copied association list entry is an entry of its own", "(copy (assoc 'k al)) was the entry itself: changing al changed the copy, and a list or frame that holds an entry was copied with the entry shared")
