import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or ["standard output","exit status"],hook_needed=None)))
p("C01","Reading is independent of how the bytes arrive",
 "For every sequence of well-formed expressions, a script given on the command line, a loaded file, the standard input of the REPL and `read` inside `in` each yield exactly those expressions, in order, each once, whatever the sizes of tokens, lines and files and however the system splits or delays the bytes. Comments, white space, strings spanning lines, several expressions on a line and a last expression without newline are all part of that. Printing a value read that way with `print` gives its literal notation back.",
 ["inputs","schedules","fault_sequences"],"every expression sequence and every segmentation and delay of its bytes over file, pipe and terminal",
 "The syntax tests feed short single-line strings in one piece; no test makes a token, a line or an expression straddle two reads.",
 ["lib/core/read.c","lib/grammar/lexer.rl","lib/grammar/parser.y","lib/core/print.c","lib/core/utils.c","bin/mnml.c"],
 [("incremental lexer with a saved token prefix","lib/grammar/lexer.rl lexer_parse"),("read loop over the channel","lib/core/read.c lisp_read"),("literal printer","lib/core/print.c")])
p("C02","readline returns every line exactly once, byte for byte",
 "Whatever bytes a file, pipe, terminal or socket carries and however they are split or delayed, successive `readline` calls in one `in` (or on the interpreter's own input) return exactly the lines of the stream in order, without their newline and otherwise unmodified, including empty lines and an unterminated last line, and then `EOF` on every later call.",
 ["inputs","schedules","fault_sequences"],"every byte stream, every segmentation and delay, every source kind",
 "No test calls readline on anything but a few short lines.",
 ["lib/mnml/io/readline.c","lib/mnml/io/in.c"],[("getline on the current input channel","lib/mnml/io/readline.c")])
p("C03","Printed output reaches its destination once, in order, complete",
 "Whatever `prin`, `prinl`, `print` and `printl` are asked to print, of any size, to standard output, a descriptor or a file, and across `fork`, each process's bytes arrive at each destination exactly once, in program order and unaltered, however the system shortens or delays the writes. When a write fails, only output of the print call it belongs to may be missing; every other call's output is intact, in order and not duplicated.",
 ["inputs","schedules","fault_sequences","programs"],"every print sequence, interleaving of processes, short write and write error",
 "Tests compare the output of small programs on a file or pipe that accepts everything at once.",
 ["lib/core/print.c","lib/mnml/io/prin.c","lib/mnml/io/prinl.c","lib/mnml/io/print.c","lib/mnml/io/printl.c","lib/mnml/io/out.c","lib/mnml/unix/fork.c"],
 [("bounded print buffer flushed to the channel","lib/core/print.c lisp_write/lisp_flush"),("flush before fork","lib/mnml/unix/fork.c")])
p("C04","A print that returned survives a crash, an exec or a kill",
 "Once a print call has returned, all its bytes (the newline of `prinl` and `printl` included) have been handed to the operating system: they are there even if the process is killed, crashes or replaces itself by `exec` at any later instruction. Killing the process at any point leaves at each destination a prefix of what the uninterrupted run writes there.",
 ["crash_points","programs"],"every program of prints and every point at which the process is killed",
 "No test kills the interpreter; a clean exit flushes everything anyway.",
 ["lib/core/print.c","lib/mnml/io/prinl.c","lib/mnml/io/printl.c","lib/mnml/unix/exec.c"],
 [("fflush at the end of every print","lib/core/print.c lisp_flush"),("newline flushed","lib/mnml/io/prinl.c")],["destination contents at the moment of the crash"])
p("C05","in, out and load restore the previous channel, also when they fail",
 "In any nesting of `in`, `out` and `load`, prints and reads inside the body use the innermost channel, and after it the enclosing channel is in effect again exactly where it was, with relative paths resolved against the same directory as before. When the file or descriptor cannot be opened the body is not evaluated, the value is NIL, and the enclosing channels are untouched.",
 ["programs","fault_sequences"],"every nesting and every subset of failing opens and descriptor duplications",
 "Tests use one level of in/out on files that open.",
 ["lib/mnml/io/in.c","lib/mnml/io/out.c","lib/core/utils.c","include/mnml/utils.h","lib/mnml/std/load.c"],
 [("channel stacks","include/mnml/utils.h PUSH_IO_CONTEXT/POP_IO_CONTEXT"),("path resolution","lib/core/utils.c lisp_get_fullpath, lisp_load_file")],["standard output","files written","values returned"])
p("C06","No operation leaks or steals a descriptor, also when it fails",
 "After `in`, `out`, `load`, `run`, `connect`, `accept` or `listen` has returned, with or without any of its system calls failing, the interpreter has open exactly the descriptors it had before plus the one the call returned. Descriptors owned by the program stay open and usable until the program closes them, and `close` closes exactly the descriptors it is given and returns T if and only if all of them were open.",
 ["programs","fault_sequences","histories"],"every sequence of operations with every pattern of failing system calls",
 "A leak or double close shows only after a failing system call or after many repetitions; no test injects failures or looks at the descriptor table.",
 ["lib/mnml/io/in.c","lib/mnml/io/out.c","lib/core/utils.c","lib/mnml/unix/connect.c","lib/mnml/unix/listen.c","lib/mnml/unix/accept.c","lib/mnml/unix/close.c","lib/core/module.c","share/mnml/run.l"],
 [("close on every failure path","lib/mnml/unix/connect.c, listen.c"),("fclose of the channel","lib/mnml/io/in.c, out.c")],["descriptor table of the process"])
p("C07","Every cell is released, whatever fails on the way",
 "For every program, input and failure of an I/O or loading operation, an interpreter that ends normally has released every memory cell it allocated, so `-d` never reports a leak. That includes truncated and malformed input, failing `load`, `in`, `out`, `connect`, `run` and `select`, and input that stops in the middle of an expression; and no such program of well-formed expressions is ended by a fault of the interpreter. (Dividing by zero, calling data that merely looks like a function, and recursion without end are excepted. Cells in a reference cycle that the program itself builds are excepted: cells are counted.)",
 ["programs","inputs","fault_sequences"],"every program and input, every failing system call",
 "The tests run with -d but only over paths on which nothing fails and input is well formed.",
 ["lib/core/slab.c","lib/core/eval.c","lib/core/read.c","lib/core/module.c","lib/grammar/parser.y","lib/mnml"],
 [("reference counting","lib/core/slab.c, include/mnml/slab.h"),("exit check","bin/mnml.c -d")],["exit status under -d"])
p("C08","run returns exactly what the program wrote and how it ended",
 "`run` returns the exit status of the program (NIL if a signal ended it) followed by exactly the lines it wrote to its standard output, for every amount and timing of output, with exactly the arguments and environment it was given (up to 126 of each, of up to 4095 bytes); it returns as soon as the program has ended and nobody holds its output, whatever processes the program leaves in the background; it leaves no unreaped child, no descriptor and none of the program's output elsewhere. When the pipe, the process or the program cannot be created, it still returns, the caller's own output and the rest of its script are unaffected, and a later `run` works.",
 ["inputs","schedules","fault_sequences"],"every program behaviour, interleaving of parent and child, and failing system call",
 "Tests do not run programs that write more than a pipe holds, die, dawdle or cannot be started.",
 ["share/mnml/run.l","lib/mnml/unix/exec.c","lib/mnml/unix/fork.c","lib/mnml/unix/pipe.c","lib/mnml/unix/wait.c","lib/mnml/unix/dup.c"],
 [("pipe, fork, dup, exec, read to EOF, wait","share/mnml/run.l")],["value of run","process table","descriptor table"])
p("C09","Processes joined by fork, pipe, dup and wait exchange data exactly once",
 "Under every interleaving of parent and children, bytes written into a pipe by any process arrive at the reader once, in the order each writer wrote them; the reader sees the end of the stream exactly when every writer has closed it; `wait` returns the status of the very child it names; parent and child each continue with their own copy of the program's data.",
 ["schedules","programs","histories"],"every process topology built with fork, pipe, dup, close, exec and wait, and every schedule of it",
 "No test forks; the outcome depends on the scheduling of several processes and on pipe capacity.",
 ["lib/mnml/unix/fork.c","lib/mnml/unix/pipe.c","lib/mnml/unix/dup.c","lib/mnml/unix/wait.c","lib/mnml/unix/close.c","lib/mnml/unix/exec.c","lib/mnml/io/in.c","lib/mnml/io/out.c"],
 [("thin wrappers over the system calls","lib/mnml/unix"),("channels over descriptors","lib/mnml/io/in.c, out.c")],["standard output","pipe contents","process table"])
p("C10","select calls back exactly the ready descriptors and keeps the set right",
 "`select` waits until one of its descriptors is readable or at its end, then calls the read callback once for each such descriptor and for no other. In the set it returns a descriptor whose callback returned NIL is closed and gone, one whose callback returned another number is joined by that number, and all others stay; no data is lost however arrivals, delays and signals interleave, and a failing or interrupted wait returns NIL without calling back or closing anything.",
 ["schedules","histories","fault_sequences"],"every order and timing of data and closure on every set of descriptors, every callback result",
 "No test calls select.",
 ["lib/mnml/unix/select.c"],[("descriptor sets and callbacks","lib/mnml/unix/select.c convert, process_r")],["callbacks called","value returned","descriptor table"])
p("C11","The HTTP server answers each valid request once and survives the rest",
 "`http/serve` calls the handler exactly once for each complete HTTP/1.1 request with its method, path and headers as sent (surrounding white space trimmed; a header line of nothing but white space is the empty line), sends that client one response that depends on the handler's value (404 for NOT_FOUND, 500 otherwise) and closes the connection. Malformed, truncated, reset, slow or fragmented requests and failing accepts neither reach the handler nor stop the server: once they end, the next valid client is served, and no descriptor is left behind.",
 ["inputs","schedules","fault_sequences","histories"],"every set of clients, interleaving, fragmentation, disconnection and failing socket call",
 "No test starts the server.",
 ["share/mnml/http.l","lib/mnml/unix/select.c","lib/mnml/unix/accept.c","lib/mnml/unix/listen.c","share/mnml/trim.l","share/mnml/split.l","share/mnml/join.l","lib/mnml/io/readline.c"],
 [("select loop","share/mnml/http.l http/serve"),("per-connection callback","share/mnml/http.l http/ingress"),("request parser","share/mnml/http.l http/request, http/headers")],["bytes each client receives","handler calls","descriptor table"])
p("C12","http/get delivers the response as sent, or nothing",
 "`http/get` sends one well-formed GET for the path and host it was given and, for every HTTP/1.1 response however fragmented or delayed, calls the function once with the status code, the reason and the headers as sent (surrounding white space trimmed), the body being what the function then reads. When the connection cannot be made, or the peer closes, resets or answers something else, the function is not called, the call returns, and the socket is closed.",
 ["inputs","schedules","fault_sequences"],"every response, fragmentation, delay, disconnection and failing socket call",
 "No test performs a request.",
 ["share/mnml/http.l","lib/mnml/unix/connect.c","lib/mnml/io/readline.c","share/mnml/trim.l","share/mnml/split.l","share/mnml/join.l"],
 [("request and response parser","share/mnml/http.l http/get, http/response, http/headers")],["bytes the server receives","calls of the function","descriptor table"])
p("C13","Sockets either connect and carry all bytes, or fail cleanly and can be retried",
 "`listen`, `accept` and `connect` return a working descriptor or NIL, never a dead one: a connection they returned carries every byte in both directions in order until closed, `listen` is reached at every address of the machine, and `accept` reports the peer's address and port. A failure of any underlying step returns NIL, holds no port or descriptor, and a later attempt succeeds once the cause is gone.",
 ["schedules","fault_sequences","histories"],"every interleaving with the peer, every failing step, every segmentation",
 "No test opens a socket.",
 ["lib/mnml/unix/listen.c","lib/mnml/unix/accept.c","lib/mnml/unix/connect.c"],
 [("step-by-step set-up with close on failure","lib/mnml/unix/listen.c, connect.c")],["values returned","bytes at the peers","descriptor table"])
p("C14","A termination signal stops between expressions and loses nothing",
 "When SIGTERM or SIGQUIT arrives at any instant, the expression being evaluated still completes with all its output, the REPL and `-e` evaluate at most one more expression and then exit normally, releasing everything; a script file runs to its end. A closed pipe or connection (SIGPIPE) never kills the interpreter; `quit` ends the REPL and `-e` after the expression it is in.",
 ["schedules","crash_points","programs"],"every arrival instant of every such signal in every program",
 "No test sends a signal.",
 ["bin/mnml.c","lib/mnml/std/quit.c"],[("flag checked between expressions","bin/mnml.c signal_handler, run")],["standard output","exit status"])
p("C15","Loading a module or file succeeds whole or returns NIL, and can be retried",
 "`load` of a module or of a file that cannot be found, opened or read because the file system fails returns NIL, leaves existing definitions, channels and the caller's own progress intact, and succeeds when tried again after the failure has passed; of a file whose reading fails midway the expressions before that point have been evaluated. What comes first in the search order is taken, whatever lies in later places: for modules the installation prefix, the user's directory, then MNML_MODULE_PATH from left to right; for `@lib` names the directories of MNML_SCRIPT_PATH from left to right. A `load` with several arguments takes each in turn whatever becomes of the others and returns the value of the last. A successful module load returns exactly the symbols it made available, each of which then works (given the functions it calls), also when the module was loaded before.",
 ["fault_sequences","histories","configurations"],"every failing file-system call during loading, every load order and repetition",
 "Tests only load modules that exist on a file system that works.",
 ["lib/core/module.c","lib/mnml/std/load.c","lib/core/utils.c"],[("search, dlopen, symbol binding, module cache","lib/core/module.c"),("script loading","lib/core/utils.c lisp_load_file")],["value of load","behaviour of the loaded functions"])
p("C16","Time is monotonic and immune to clock changes",
 "`(time)` never goes backwards within a process and `(time prg)` is never negative, whatever jumps the wall clock makes: it is the real time in nanoseconds that the evaluation of prg took, waiting included, and prg is evaluated exactly once.",
 ["schedules","fault_sequences"],"every delay during evaluation and every jump of the wall clock",
 "Tests cannot move the clock; a wall-clock implementation passes them.",
 ["lib/core/utils.c","lib/mnml/sys/time.c"],[("monotonic clock","lib/core/utils.c lisp_timestamp")],["values returned","simulated clock"])
p("C17","Memory growth is invisible; running out stops the program, never corrupts it",
 "Programs compute the same results whenever and however often the interpreter's memory has to grow, up to its limit (64 MB), and read, print and release lists of any length. When the system refuses memory the interpreter stops with a failure status, having printed only correct results, rather than continuing with wrong data.",
 ["programs","fault_sequences"],"every program size and every growth step that fails",
 "The slab test grows once with synthetic allocations and no failure.",
 ["lib/core/slab.c","bin/mnml.c"],[("doubling of the committed slab","lib/core/slab.c slab_expand"),("abort on exhaustion","lib/core/slab.c slab_allocate")],["standard output","exit status"])
p("C18","Malformed input is confined to its line",
 "A line with something that cannot be read (a stray closing parenthesis, an unknown character or escape, a prefix with nothing to apply to, a misplaced dot) is discarded from the error on, whatever its length and wherever its bytes are split, and the REPL reports it once as a parse error. Expressions before it are evaluated and the lines after it are read and evaluated as if it had not been there; an expression whose structure is wrong is dropped as a whole, and a list that is merely interrupted by unreadable bytes goes on in the next line. Scripts, loaded files and `-e` discard in the same way, without a report. No byte sequence crashes or hangs the reader, and input that ends anywhere ends it normally.",
 ["inputs","schedules"],"every byte sequence and every segmentation",
 "Syntax tests check that some strings are rejected, one at a time, with no continuation.",
 ["lib/grammar/lexer.rl","lib/grammar/parser.y","lib/core/read.c","bin/mnml.c"],[("purge to the end of the line","lib/grammar/lexer.rl purge"),("error handler","bin/mnml.c repl_parse_error_handler")])
p("C19","The REPL answers before it waits for more",
 "The REPL never waits for input while an answer is due: after each complete line the answers to its expressions, in order, and a prompt are written out before the next read, so that a user or program that waits for the answer before sending more always gets it, over a terminal or a pipe and however bytes are split or delayed. Output printed by an expression precedes its answer.",
 ["schedules","histories"],"every conversation, segmentation and delay",
 "Tests pipe a whole file in and look at the end result.",
 ["bin/mnml.c","lib/core/read.c"],[("flush in the prompt stage","bin/mnml.c stage_prompt"),("read stops at the end of a complete expression","lib/core/read.c lisp_read")])
p("C20","The exit status tells how the program ended",
 "The interpreter exits with 0 if the last expression of the script or of `-e` yielded a value and with 255 if it yielded NIL, if the script could not be opened or was empty, or if the REPL reached the end of its input, whatever delays, short transfers, failing output writes and terminated children happened on the way. A process that cannot execute its program exits with the error number; an interpreter that cannot start (memory, home or current directory) exits with a failure status and evaluates nothing.",
 ["programs","fault_sequences","schedules"],"every program, failing open, short or failing transfer and schedule",
 "Tests rely on the status of programs on which nothing fails.",
 ["bin/mnml.c","lib/core/utils.c","lib/mnml/unix/exec.c"],[("status from the last value","bin/mnml.c main")],["exit status"])
p("C26","Arguments and environment arrive unchanged, also in programs started",
 "ARGV holds the script's name and the arguments after it, and ENV every environment variable that has a non-empty value as a pair of name and value, in order and byte for byte, whatever the bytes (backslashes, quotes, `=` in a value, non-ASCII) and however many and long they are; they stay so while the program opens files and forks. Arguments and environment passed on with `exec` or `run` (up to 126 of each, up to 4095 bytes each) arrive in the program started exactly as given, and `exec` without an environment passes the caller's own.",
 ["programs","inputs","schedules"],"every argument vector and environment, every chain of fork, exec and run",
 "Tests start the interpreter with one file name and the environment of the build.",
 ["bin/mnml.c","include/mnml/utils.h","lib/mnml/unix/exec.c","share/mnml/run.l"],
 [("ARGV and ENV are built at start","bin/mnml.c main"),("argument vectors are rebuilt for execve","lib/mnml/unix/exec.c")],["standard output of the program and of the programs it starts"])
p("C27","A file holds exactly what was added to it until it is removed",
 "`out` creates a file that does not exist and adds at the end of one that does, and never alters what is there already, also when several processes add to it at once and when a write takes only part of the data; what one process adds stays in its order. `unlink` removes exactly the file named and returns T, or changes nothing and returns NIL. A file that is open stays what it was when its name is removed or reused. An `in` or `out` whose open fails returns NIL and changes no file.",
 ["histories","fault_sequences","schedules"],"every sequence of out, in and unlink by one or several processes, with failing and short system calls",
 "Tests write each file once, alone, and never make open, write or unlink fail.",
 ["lib/mnml/io/out.c","lib/mnml/io/in.c","lib/mnml/unix/unlink.c","lib/core/utils.c"],
 [("O_APPEND on every open for writing","lib/mnml/io/out.c")],["contents of the files","returned values"])
p("C28","Doing something again and again takes no more memory",
 "However often a program repeats an operation that leaves nothing behind — in, out, load, reading, printing, pipe, dup, select, connect, listen, accept, close, fork, exec, run, wait, unlink, evaluating expressions of the language — and whether it succeeds or fails each time, the cells in use and the process's heap after the later repetitions are what they were after the first: a program that runs for a long time does not grow, whether its loop is a `while` or a tail call inside `if`, `cond`, `match`, `when` or `unless`. A failure injected once leaves no growth behind either.",
 ["programs","histories","fault_sequences"],"every sequence of such operations, every number of repetitions, every failing system call on the way",
 "Tests run each operation once or a few times and look at the result, not at the memory.",
 ["lib/core/slab.c","lib/core/read.c","lib/core/module.c","lib/core/eval.c","lib/core/utils.c","lib/mnml/io/in.c","lib/mnml/io/out.c","lib/mnml/std/load.c"],
 [("reference counting of cells","lib/core/slab.c"),("read buffers, lexers, paths and strings on the C heap are released on every path","lib/core/read.c, lib/core/module.c")],["cells in use as slabinfo tells","program break and anonymous mappings of the process"])
p("C29","The test runner runs every selected test and its exit status is the verdict",
 "`test:run` runs every selected test - all of them, or those named with -t, in the order and as often as named; an unknown name is reported as not found and counts as a failure - exactly once per selection, also after one has failed, reports each as passed or failed, explains each failed assertion, lists with -l and explains itself with -h without running any, and the exit status is 0 if and only if everything selected passed: whatever the tests do (files, children, pipes, failing loads), however transfers are shortened, and also when the runner's own output cannot be written.",
 ["programs","inputs","fault_sequences"],"every suite of tests, every selection, every short transfer and write error of the report",
 "The suite that would notice is run by the very runner; a runner that skips or misreports makes every test pass.",
 ["share/mnml/test.l","share/mnml/args.l","share/mnml/term.l","share/mnml/iterators.l","share/mnml/split.l","bin/mnml.c"],
 [("fold over the tests with the verdict as accumulator","share/mnml/test.l test:run"),("flags","share/mnml/args.l"),("value of the last expression as exit status","bin/mnml.c")],["standard output","exit status"])
p("C30","The transpiler leaves the complete module that was asked for, or fails visibly",
 "`mnmlc -c SRC -m MOD -s SYMS -o DST`, with its options in any order, exits 0 and leaves in DST exactly one complete C module that provides exactly the functions SYMS as the module MOD, whatever DST held before and however reads, writes and time are disturbed. For functions like those of the library's manips.l and iterators.l, and for functions built from car, cdr, cons, NIL, arithmetic, comparisons, nil?, lst?, not, and, or, calls of arguments and of other functions (transpiled, interpreted or native), recursion and conditionals in tail position, that module compiles against the installed headers and, once loaded, its functions return what those of SRC return, and keep no memory from one call to the next; a function whose types the transpiler cannot settle is refused with a non-zero exit status. When SRC cannot be loaded, DST cannot be created, or an option is unknown, missing or without its value, the exit status is non-zero; a DST that exists is left as it was when SRC cannot be loaded or an option is wrong, and the usage that is then printed names the program.",
 ["inputs","fault_sequences","configurations"],"every selection and order of functions and options, every previous target, every delay and short transfer",
 "The build transpiles two fixed modules once; nothing looks at the exit status, at an existing target or at the memory of compiled functions.",
 ["bin/mnmlc","share/mnml/cc.l","share/mnml/cps.l","share/mnml/args.l","lib/core/closure.c"],
 [("driver","bin/mnmlc"),("C generation","share/mnml/cc.l cc:compile"),("continuation-passing style and type inference","share/mnml/cps.l")],["exit status","content of the target","values and memory of the compiled functions"])
p("C31","Tracing only observes",
 "With MNML_DEBUG set to any list of categories, in any order, known, unknown or empty, every program prints, reads, writes, answers, releases and exits as it does without: whatever becomes of standard error (short writes, write errors, no reader), whatever other calls fail, and when signals arrive in the middle of a line of trace. Each category named is traced, whatever is named before or after it, and no other; a program traced with several categories gives the lines that each of them gives alone, each once and in the process that did it, and without MNML_DEBUG there are none.",
 ["configurations","schedules","fault_sequences","programs"],"every list of categories, every program, every fate of standard error, every instant of a signal",
 "No test sets MNML_DEBUG.",
 ["include/mnml/debug.h","lib/core/debug.c","lib/core/eval.c","lib/core/lisp.c","lib/core/module.c","lib/core/read.c","lib/core/slab.c","lib/core/utils.c","lib/mnml/unix","lib/mnml/io","bin/mnml.c"],
 [("categories and printing","lib/core/debug.c"),("trace points","include/mnml/debug.h TRACE, ERROR"),("signal handler","bin/mnml.c")],["everything a program does but its standard error","the lines of trace of each process"])
# pure language
def n(id,title,st,files,mech):
    p(id,title,st,["programs","inputs"],"every program of the language","Tests sample a few programs per construct.",files,mech)
n("C21","Evaluation follows the documented scoping, currying and tail-call rules",
 "Functions see their definition-site bindings, partial application yields a function of the remaining arguments, and tail calls run in constant stack.",
 ["lib/core/eval.c","lib/core/closure.c"],[("closures and tail-call marks","lib/core/eval.c, lib/core/utils.c")])
n("C22","Globals keep the last value bound to each name",
 "After any sequence of bindings, looking up a name yields the last value bound to it and no other binding is disturbed.",
 ["lib/core/tree.c","lib/core/lisp.c"],[("scapegoat tree","lib/core/tree.c")])
n("C23","Arithmetic, comparison, logic and predicates match their definition",
 "Every arithmetic, comparison, logical and predicate function returns the documented value for every argument.",
 ["lib/mnml/math","lib/mnml/logic","lib/mnml/std"],[("one function each","lib/mnml")])
n("C24","The list and string library computes its documented functions",
 "Every list, string and association-list function of the library returns the documented value for every argument.",
 ["share/mnml"],[("recursive definitions","share/mnml/*.l")])
n("C25","Transpiled functions behave like their interpreted source",
 "A function compiled by the transpiler returns the same value as its interpreted definition for every argument.",
 ["share/mnml/cc.l","share/mnml/cps.l"],[("CPS conversion and C generation","share/mnml/cc.l, cps.l")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(x["id"],x["statement"].count(". ")+1)
