NOTE = "Sound for the listed rules on the code as type-checked and compiled to SSA: every construct the rule speaks about is enumerated from the types and the call graph, an undecided one is reported. It decides these structural necessary conditions, not the run-time values. Trusts go/types, go/ssa and the stated assumptions."
TRAPF = ["runtime/internal/trap/trap.go", "runtime/internal/trap/var.go", "runtime/internal/trap/mock.go", "runtime/internal/trap/record.go", "runtime/internal/trap/stack_data.go", "runtime/internal/trap/init.go", "runtime/internal/trap/interceptor.go"]
P = [
dict(id="R01", title="A mock, recorder or interceptor only affects the goroutine that set it up",
 statement="A mock, recorder or interceptor registered after program initialisation changes calls and variable accesses of the registering goroutine (and goroutines it then creates) and of no other; one registered during initialisation applies to every goroutine. Every call or access consults both scopes, with each kind of registration found only by its own kind of trap and under its own target (one about the pointers to a variable by reads that take its address, one about its value by reads of the value). When both scopes have a mock for the same target, the goroutine's own mock wins; recorders and interceptors of both scopes run. Setting up one registration never loses the ones the goroutine already has.",
 over=["schedules", "histories"], quant="For all goroutines, all targets, all interleavings of registrations, cancellations and calls.",
 why="Tests run one or two goroutines and a few targets; isolation must hold for every interleaving and every registration entry point. Which table a registration writes is decided by its code on every path.",
 files=TRAPF, mechanism=[("registration picks the scope by init state", "runtime/internal/trap/mock.go pushMockHandler"), ("per-goroutine registry", "runtime/internal/trap/stack_data.go")],
 state=[("registry", "interceptors, recorders and mocks of one scope", "runtime/internal/trap/stack_data.go")], observe=["calls of a mocked function from different goroutines"],
 technique="SSA value-origin and guard dataflow over registry reads and writes", note=NOTE),
dict(id="R02", title="Latest mock wins; cancelling one removes exactly it and nothing else",
 statement="Among mocks of one target in one scope the most recently registered takes effect, and cancelling it uncovers the one before. The cancel function returned by a registration removes exactly that registration, whatever else was registered or cancelled in between and in whatever order, and fails loudly when there is nothing to remove or when a process-wide registration would be removed after initialisation. Registering or cancelling from inside a callback never corrupts or skips entries of a dispatch that is under way.",
 over=["histories"], quant="For all sequences of registrations and cancellations of any kinds and targets, including ones made from callbacks of a dispatch in progress.",
 why="Tests cancel in the reverse order of registration, outside callbacks; the property is about every history.",
 files=TRAPF, mechanism=[("append on push, remove by identity on cancel", "runtime/internal/trap/mock.go, record.go, interceptor.go")],
 observe=["which mock answers a call after some are cancelled"],
 technique="SSA dataflow on list construction, aliasing and removal", note=NOTE),
dict(id="R03", title="A mock on a bound method applies to that receiver only",
 statement="A mock or recorder registered on a method value of one instance is run for calls on that instance only, while one registered on the method expression is run for all instances. The instance, the target and the callbacks kept by one registration always come from one and the same resolution of what the user passed. A method value whose receiver cannot be determined is refused rather than treated as matching every instance.",
 over=["inputs", "programs"], quant="For all receivers, methods and mixtures of bound and unbound registrations.",
 why="Tests use two instances and one kind of registration at a time; the comparison must guard every place a callback is run or scheduled.",
 files=TRAPF + ["runtime/internal/trap/inspect.go"], mechanism=[("receiver comparison before each callback", "runtime/internal/trap/trap.go"), ("probe call to find the bound receiver", "runtime/internal/trap/inspect.go")],
 observe=["whether a mock bound to a is run for a call on b"],
 technique="SSA guard (dominating comparison) and value-origin analysis", note=NOTE),
dict(id="R04", title="A new goroutine inherits its creator's registrations as an independent copy",
 statement="A goroutine starts with every mock, recorder and interceptor its creator had at that moment, each with all its callbacks and the instance it is bound to, under the same targets. What it gets is a copy: later registrations or cancellations in either goroutine, at any time, are not seen by the other. It inherits tracing exactly when its creator is tracing, and its calls are then recorded below the call that created it (none of this when race-safe mode is on).",
 over=["schedules", "histories"], quant="For all registration histories of creator and created goroutine and all interleavings after creation.",
 why="Sharing of a table or list between goroutines shows only under particular interleavings or cancel orders, which tests do not drive.",
 files=["runtime/internal/trap/init.go", "runtime/internal/trap/stack_data.go"], mechanism=[("deep clone on goroutine creation", "runtime/internal/trap/init.go")],
 observe=["mock in effect in a child goroutine after the parent cancels it"],
 technique="SSA freshness/deep-copy analysis with field coverage", note=NOTE),
dict(id="R05", title="Code run by a callback is not itself trapped by outermost-only hooks",
 statement="While a user callback (mock, pre, post, trace filter) runs, the goroutine is marked as trapping, and the mark is taken back on every way out of the callback including panics. While so marked, general interceptors, the trace filter and trace recording do not run, so callbacks calling instrumented code cannot recurse through them. Post callbacks, which run later when the instrumented function returns, are protected the same way.",
 over=["programs", "histories"], quant="For all callbacks, including panicking and nested ones.",
 why="Unbounded recursion or a mark left behind after a panic appears only for particular callbacks; the pairing must hold on every path.",
 files=["runtime/internal/trap/trap.go", "runtime/internal/trap/var.go", "runtime/internal/runtime/g.go"], mechanism=[("depth counter raised around callbacks", "runtime/internal/trap/trap.go")],
 observe=["trapping depth at callback entry and after a panic"],
 technique="SSA typestate (depth counter) and guard analysis", note=NOTE),
dict(id="R06", title="Every matching recorder and interceptor runs, with its own data, for that call",
 statement="For each call or variable access, the pre callback of every registration that matches runs until one asks to stop, and the post callback of every one of them that was reached runs when the call is over (not of the one that stopped it). Each post callback receives the data its own pre callback returned, never another registration's. All callbacks see the receiver, arguments and results of the very call that is dispatched, and a callback registered as pre runs as pre, one registered as post as post.",
 over=["inputs", "histories"], quant="For all numbers and mixes of recorders, interceptors and mocks on a target.",
 why="Tests register one or two callbacks with constant data; the failure needs several registrations with different data or only one of the two callbacks.",
 files=TRAPF, mechanism=[("dispatch loops collecting post callbacks", "runtime/internal/trap/trap.go")],
 observe=["sequence of callbacks run for one call, with their data"],
 technique="path-sensitive typestate (property simulation) over the inlined dispatch plus closure-capture analysis", note=NOTE),
dict(id="R07", title="The call tree of a traced goroutine can be recorded and exported concurrently",
 statement="The call tree being recorded by a goroutine may be read, extended by child goroutines and exported at any time from another goroutine without a data race. While the tree is locked nothing runs that could itself be trapped and lock it again, and the lock is released on every path. What is exported is a consistent snapshot that later recording cannot change.",
 over=["schedules"], quant="For all interleavings of recording goroutines and exporting ones.",
 why="A race needs a particular interleaving; the stable tests never run the recorder concurrently.",
 files=["runtime/internal/stack/stack.go", "runtime/internal/stack/export.go", "runtime/internal/trap/init.go"], mechanism=[("mutex around tree updates", "runtime/internal/stack/stack.go"), ("clone under lock before export", "runtime/internal/stack/export.go")],
 state=[("call tree", "root, current entry and child lists of one goroutine", "runtime/internal/stack/stack.go")], observe=["race detector reports; exported trace"],
 technique="lock-set and lock-order analysis over the call graph; escape/deep-copy analysis", note=NOTE),
dict(id="R08", title="A trace records each admitted call once, in its place, and always ends",
 statement="While a goroutine is traced, each call the filter admits is added to its tree exactly once, below the call that was running when it began, and is left again when it is over, marked as finished, whichever way it ended; what was current before becomes current again. Its begin and end are measured from the begin of the tree. Calls the filter leaves out are not recorded. Whichever way the call that started the trace ends (also when it turns out there is nowhere to report to), the goroutine is no longer tracing, its filter is gone, and its mocks, recorders and interceptors are all still in force; no other call ends the trace. When a traced goroutine exits, its tree gets an end.",
 over=["histories", "inputs"], quant="For all nestings of calls, panics, filters, mocks and trace configurations.",
 why="The pairing must hold on every path through the dispatch, of which a test takes one; a mark or tree left behind shows only in what happens next on that goroutine.",
 files=["runtime/internal/trap/trap.go", "runtime/internal/stack/stack.go", "runtime/internal/trap/init.go"], mechanism=[("entry pushed before and finished after the call", "runtime/internal/trap/trap.go"), ("current entry saved and restored", "runtime/internal/stack/stack.go")],
 state=[("tracing mark", "whether the goroutine is being traced, with its filter", "runtime/internal/trap/stack_data.go")], observe=["exported trace; whether a second trace on the same goroutine works; mocks after a trace"],
 technique="path-sensitive typestate (property simulation) over the inlined dispatch and tree operations", note=NOTE),
dict(id="R13", title="A mock in force decides the call, once, after pre and before post callbacks",
 statement="When a call or variable access has a mock in force that applies to its receiver, the mock is run exactly once on every path, unless a pre callback asked to stop; it is never run after that. Whether the original function then runs is exactly what the mock, or the stopping pre callback, asked for. Pre callbacks run before the mock and post callbacks after it.",
 over=["inputs", "histories"], quant="For all combinations of registrations and callback outcomes in one dispatch.",
 why="Every combination of tracing, interceptors, recorders and mock outcomes is a different path through the dispatch; tests sample few.",
 files=["runtime/internal/trap/trap.go", "runtime/internal/trap/var.go", "runtime/internal/trap/build.go"], mechanism=[("dispatch order in the traps", "runtime/internal/trap/trap.go")],
 observe=["whether the original ran; number of mock runs"],
 technique="path-sensitive typestate (property simulation) over the inlined dispatch", note=NOTE),
dict(id="R09", title="Ill-fitting replacers are refused at setup; interceptor errors are never lost",
 statement="A replacer or recorder is accepted only if its function type fits the target: the same number of parameters and results (receiver handled as documented) with every type equal, checked on every way of setting one up, also by name; otherwise setup panics, so nothing ill-typed is ever called later. Setting up by name something that does not exist, or is not instrumented, panics at once instead of failing later or silently doing nothing. An error returned by an interceptor always has an effect: it becomes the error result of the call, or a panic when the call has none; only ErrMocked from a pre interceptor is not an error but means the call is mocked.",
 over=["inputs", "programs"], quant="For all targets, replacer and recorder types, names and interceptor outcomes.",
 why="Tests try matching functions and a few mismatches; the check must hold for every combination of parameters and results and on every setup path.",
 files=["runtime/internal/trap/mock.go", "runtime/internal/trap/record.go", "runtime/internal/trap/build.go", "runtime/internal/trap/object.go"],
 mechanism=[("type comparison before registration", "runtime/internal/trap/object.go"), ("error delivery of interceptors", "runtime/internal/trap/build.go")],
 observe=["panic at setup; error result of an intercepted call"],
 technique="SSA must-analysis (type comparison on every setup path), loop coverage of comparators, error-value flow, nil-guard analysis", note=NOTE),
dict(id="R14", title="Callbacks get the call's own arguments and results, in order and by name",
 statement="Every mock, recorder and interceptor is handed the function, receiver, arguments and results of the very call being dispatched. The i-th argument appears under the i-th argument name and the i-th result under the i-th result name, all of them, with the receiver as first argument exactly when the callback is not bound to an instance. A replacer gets receiver and arguments at their positions and its i-th result becomes the call's i-th result; writing to an object's field changes the call's value. An interceptor's context is the call's own first argument whenever the function takes a context first and it is not nil.",
 over=["inputs", "programs"], quant="For all functions, numbers of arguments and results, bound and unbound methods.",
 why="A shifted position or a wrong list shows only for particular numbers of arguments, receivers and results; tests use a few.",
 files=["runtime/internal/trap/build.go", "runtime/internal/trap/object.go", "runtime/internal/trap/record.go", "runtime/internal/trap/trap.go"],
 mechanism=[("assembling of argument and result objects", "runtime/internal/trap/build.go")],
 observe=["values a callback sees by position and name"],
 technique="SSA value-origin and linear index analysis of list construction", note=NOTE),
dict(id="R11", title="A registered function or variable is found under each of its own names",
 statement="Every function, variable, constant, closure or interface registered with the runtime (package functab) can be found by each name it has: its program counter or function value, its package and identity name, its full name, the address of a variable, the receiver type of a method; also when it is registered after an earlier lookup. No other one is found under that name, and none is left out of the list of all. T.M finds (*T).M when there is no T.M, and the full name of an instance of a generic finds the generic. The program counter, full name, takes-a-context-first and returns-an-error-last facts stored with a function are those of that very function.",
 over=["inputs", "programs", "histories"], quant="For all registered functions and variables and all orders of registrations and lookups.",
 why="Each table is written under its own condition, and read by its own function; tests look up a few functions of a kind or two.",
 files=["runtime/functab/functab.go"], mechanism=[("index of all registered infos", "runtime/functab/functab.go")],
 state=[("index tables", "infos by program counter, name, address and receiver type", "runtime/functab/functab.go")], observe=["what a lookup returns"],
 technique="SSA map-key provenance, must-write path analysis with excused edges, loop coverage", note=NOTE),
dict(id="R12", title="A goroutine-local value is seen by its goroutine, and its heirs, only",
 statement="A value set for a key of package tls is what that key reads on the same goroutine until it is set again, and on no other goroutine or key, whatever other keys hold. A goroutine that is created starts with exactly the values its creator had at that moment for the keys declared inheritable (all of them, nil values included), and none for other keys; what it then sets does not change its creator. Each declaration makes a key of its own, inheritable exactly when asked for. Declaring keys while goroutines are created is safe.",
 over=["schedules", "histories"], quant="For all declarations, sets and goroutine creations in any interleaving.",
 why="Tests set one or two keys; which keys are copied depends on what the creator happens to have set, and mixing up goroutines shows only under concurrency.",
 files=["runtime/tls/tls.go", "runtime/tls/hook.go", "runtime/internal/runtime/g.go"], mechanism=[("per-goroutine map", "runtime/internal/runtime/g.go"), ("copy on goroutine creation", "runtime/tls/hook.go")],
 state=[("storage", "values of a goroutine by key", "runtime/internal/runtime/g.go"), ("list of keys", "all declared keys", "runtime/tls/tls.go")], observe=["Get and GetOK of a key on different goroutines"],
 technique="SSA value-origin, must-write and loop-coverage analysis; lock-held dataflow", note=NOTE),
dict(id="R15", title="The code injected into Go's runtime delivers every event, and no stale state",
 statement="The functions xgo injects into Go's runtime lose nothing and mix nothing up. Every callback registered for goroutine creation, goroutine exit or end of initialization is called, in order, each time that happens: creation callbacks with the creator's and the new goroutine's own storage, exit callbacks before that storage is cleared, end-of-initialization callbacks after the finished mark is set. A goroutine starts with empty storage, whatever the previous user of its slot left and whether or not callbacks are registered, and clearing is ordered with the race detector's release and acquire. Each of the three trap entries passes the description and its own arguments to the trap installed for that entry, and returns its results. Every function description registered, before or after the handler is installed, reaches the handler exactly once. A panic is reported exactly when one is in flight (not Goexit, not recovered). Each function of the linked runtime package calls the one of the same name with all its arguments and results.",
 over=["histories", "schedules"], quant="For all orders of registration and events, and all reuses of goroutine slots.",
 why="The code only exists inside a rebuilt Go runtime; slot reuse, Goexit and late registration are histories no test of the repository produces.",
 files=["runtime/internal/runtime/xgo_trap_template.go", "runtime/internal/runtime/runtime_link_template.go"],
 mechanism=[("hooks injected into Go's runtime", "runtime/internal/runtime/xgo_trap_template.go"), ("forwarding functions", "runtime/internal/runtime/runtime_link_template.go")],
 state=[("per-goroutine storage", "a goroutine's storage inside the runtime's g", "runtime/internal/runtime/xgo_trap_template.go"), ("staged descriptions", "functions registered before the handler", "runtime/internal/runtime/xgo_trap_template.go")],
 observe=["callbacks run; contents of a new goroutine's storage; descriptions the handler gets"],
 technique="SSA must-pass, ordering and loop-coverage analysis of the templates, type-checked against declarations of the runtime they join", note=NOTE),
dict(id="R10", title="What xgo generates fits the runtime, the Go tree and the compiler it meets",
 statement="The parts of xgo that are compiled apart and meet only in the instrumented program agree: the records of functions and variables have the same fields, of the same types and in the same order, and the kinds the same numbers, wherever they are generated, passed and read; the per-goroutine state likewise; each generated function variable is linked to the runtime function meant for it, of the same type, and the compiler is told about that function; each stub of the runtime is replaced by a function of the same type that passes its parameters to the function of Go's runtime with its name, and installs or reads what that name says; texts put into Go's tree call functions that are declared there, with as many arguments as these take; constants, files and packages that are looked up or rewritten by name are there in the form looked for; and environment variables that switch the instrumented toolchain are those the command sets. This holds for the sources and for the embedded copies, and for the patches of each Go version.",
 over=["programs", "configurations"], quant="For all instrumented programs, and for each copy of the runtime, of the compiler's part and of the per-version patches.",
 why="The parts are never compiled together by the tests: a field moved in one place compiles everywhere and shows as wrong memory read in an instrumented program.",
 files=["instrument/constants", "runtime/core", "runtime/internal/runtime", "instrument/instrument_compiler/link_ir_gen.go", "instrument/instrument_xgo_runtime", "instrument/instrument_runtime", "patch/link/link_ir.go", "patch/patch.go", "patches", "cmd/xgo/asset"],
 mechanism=[("records", "FUNC_INFO_FIELDS, core.FuncInfo, XgoFuncInfo"), ("links", "links, RuntimeExtraDef, *_SIGNATURE"), ("stubs", "runtime_link.go, runtime_link_template.go"), ("names", "instrument/constants, exec_tool")],
 observe=["the fields the runtime reads", "which runtime function a generated variable or stub reaches", "whether the instrumented tree builds"],
 technique="cross-artefact queries over the type-checked syntax of all copies (layouts, constants, signatures, link tables) and the tokens of generated texts", note=NOTE),
]
