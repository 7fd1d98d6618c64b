NOTE = "Static analysis; sound for the constructs and call paths it enumerates (listed in the evidence file), silent about what lies outside them (see DESIGN.md)."
RES = ["instrument/resolve/stmt.go", "instrument/resolve/expr.go", "instrument/resolve/block.go", "instrument/resolve/decl.go", "instrument/resolve/name.go", "instrument/resolve/scope.go", "instrument/resolve/collect_var_ref.go", "instrument/resolve/resolve.go", "instrument/resolve/traverse.go"]
P = [
dict(id="I01", title="A local name is never taken for a package variable",
 statement="When xgo rewrites reads of package variables, an identifier that Go's scoping rules bind to something local is never rewritten: a receiver, parameter, result or type parameter of the function or of an enclosing one; a name declared in the same or an enclosing block by :=, var, const or type; a name declared in the head of an if, for, switch, type switch or select case and used in the parts that see it; range variables. A reference is rewritten only if it was resolved to a package variable, and then to the accessor of the variable with that package and that name.",
 over=["programs"], quant="For all programs that type-check, whatever constructs declare the local name and however blocks nest.",
 why="Every statement kind binds names in its own way and they nest freely; tests use a few shapes, a mistake silently reads another variable.",
 files=RES, mechanism=[("scopes of the walk over function bodies", "instrument/resolve/scope.go"), ("binding of declared names", "instrument/resolve/stmt.go")],
 state=[("Scope", "names bound in a block and its parents", "instrument/resolve/scope.go")], observe=["rewritten source of a function using a local of the variable's name"],
 technique="abstract interpretation of the AST walk on one symbolic node per go/ast kind (path-sensitive, scopes and bound names as abstract state)", note=NOTE),
dict(id="I02", title="Every read of a package variable in a function body is found",
 statement="Every read of an instrumentable package variable inside the body of a declared function of the main module is found for interception, wherever in the body it stands: any operand of any expression, any part of any statement, bodies of function literals, heads of statements, select cases, go and defer calls. Names declared inside a construct end with it and do not hide reads after it; operands evaluated before a name is declared still refer to the package variable. Left alone are only: assignment targets, operands of ++ and --, keys of composite literals that could be field names, &v.f of a variable that is no pointer, constant expressions, initializers of package variables, variables whose type cannot be told, and test files outside the main module.",
 over=["programs"], quant="For all programs that type-check and all places an expression can stand.",
 why="There are more than 45 kinds of syntax nodes with about 80 children; a child that is not walked is a mock that silently does not work, and no test enumerates them.",
 files=RES, mechanism=[("walk over function bodies", "instrument/resolve/stmt.go"), ("noting of references", "instrument/resolve/collect_var_ref.go")], observe=["references noted per declaration; rewritten source"],
 technique="abstract interpretation of the AST walk per go/ast node kind against the node kinds' fields taken from package go/ast; path analysis of refusals; loop coverage", note=NOTE),
dict(id="I03", title="A read of a trapped variable goes through that variable's own accessor",
 statement="Every package variable chosen for interception gets, behind its declaration and on its last line, two accessor functions of its own: one returning its value, one its address. Each takes the variable, hands the variable's info, its address and the address of the result to the trap, and returns the result, of the variable's declared or inferred type. Every noted reference then calls the accessor of the variable it refers to: the one for the address exactly when & is applied to the variable itself, or a method with a pointer receiver is called on it or on a part of it and the variable is not itself a pointer; the value's otherwise, and & stays before a pointer's field. Variables are chosen when they are referred to, their package may be instrumented and is a main one, or they are recorded as mocked; a variable whose type cannot be written is left alone with all its references. Types of other packages are written through an import of that package added to the same file under a reserved, unshared name. Accessors, record and rewritten references come together or not at all.",
 over=["programs","configurations"], quant="For all variables, types and references: any mix of declared and inferred types, packages the types need, test files, & and methods.",
 why="Accessor, import, record and reference are written at different places under different conditions; one that disagrees for a combination gives code that does not compile or reads another variable.",
 files=["instrument/instrument_var/trap_var.go","instrument/instrument_var/var_template.go","instrument/resolve/collect_var_ref.go","instrument/resolve/resolve.go","instrument/resolve/types/type.go","instrument/edit/edit.go","instrument/patch/import.go","instrument/constants/info.go"],
 mechanism=[("generation of accessors and rewriting of references", "instrument/instrument_var/trap_var.go"), ("noting of references", "instrument/resolve/collect_var_ref.go")],
 observe=["instrumented source of the declaring and the referring file"],
 technique="abstract interpretation in a domain of string templates: the texts inserted are derived from the SSA, instantiated per combination of their conditions, parsed and compared with what each variable and reference requires; evaluation of the conditions under which edits, records and notes are made", note=NOTE),
dict(id="I04", title="A trapped function hands its own values to the trap, and nothing else changes",
 statement="At the start of the body of every trapped function xgo inserts, on one line, a call of its file's trap with the function's own info variable, the address of its receiver (nil without one), of all its parameters and of all its results in declared order, then the deferred post callback and the return when told to stop, and nothing else. Unnamed and blank receivers, parameters and results get generated names that are recorded, written into the signature exactly once, unique in the function, and parenthesised when needed; named ones keep theirs. Each trapped function is recorded once for registration. Which functions are trapped, left to the compiler or left alone follows the package's mode, mock references and whitelists; never trapped are functions without body, blank ones, package init functions (but not methods called init), go:nosplit functions and time's real clock.",
 over=["programs","configurations"], quant="For all function declarations (any mix of named, unnamed and blank fields, any grouping), all positions among other trapped functions and all package modes.",
 why="Signatures combine freely; a wrong address, a missing parenthesis or a repeated name shows only for the particular shape, as a build failure or another parameter's value in a mock.",
 files=["instrument/instrument_func/trap.go","instrument/instrument_func/template.go","cmd/xgo/instrument.go"], mechanism=[("insertion of traps", "instrument/instrument_func/trap.go"), ("choice of files and modes", "cmd/xgo/instrument.go")],
 observe=["instrumented source of a function; which functions are intercepted"],
 technique="abstract interpretation in a domain of string templates: all texts the code can write are derived from the SSA, instantiated per combination of its conditions, parsed and compared with the record; path enumeration of the selection against its truth table; dataflow of the name counter", note=NOTE),
dict(id="I05", title="Everything trapped is registered once, described as it is declared",
 statement="For every instrumented file, the declarations xgo adds register each trapped function, trapped variable and interface type exactly once when the package initializes, after the file's links are set up. Each is described as declared: kind, package path, name, identity ((*T).M, T.M or F), absolute file, line; receiver name, type and pointerness exactly for methods; the names of all parameters and of all results in order; the variable's address; the function itself, or that it is generic (type parameters, or a generic receiver); Stdlib exactly for the standard library. Interface types declared at package level are all recorded. What is added parses and compiles whatever is in the file, comes after a complete declaration other than an import, and moves no line of the file.",
 over=["programs","configurations"], quant="For all files: any mix of functions, methods, generics, variables and interface types, any number of parameters and results, standard library or not.",
 why="The description is assembled from optional parts; a missing or swapped part only shows for one combination, as a lookup that fails or an argument under another name.",
 files=["instrument/instrument_reg/instrument_reg.go","instrument/compiler_extra/register.go","instrument/compiler_extra/decl.go","instrument/constants/info.go","instrument/instrument_intf/instrument_intf.go","instrument/ast/recv.go","instrument/patch/init.go","cmd/xgo/instrument.go"],
 mechanism=[("generation of registrations", "instrument/compiler_extra/register.go"), ("collection of what is registered", "instrument/instrument_reg/instrument_reg.go")],
 observe=["instrumented source of a file; registered function infos"],
 technique="abstract interpretation in a domain of string templates: the text added is derived from the SSA, instantiated per combination of its conditions, parsed, and each registration compared field by field with the record; dominance and loop coverage of the call site", note=NOTE),
dict(id="I06", title="What a mock names is trapped; what must not be instrumented never is",
 statement="A package is instrumented unless its path is runtime, internal or vendor or lies below one of them, it is one of the core standard packages (unsafe, runtime, reflect, sync, sync/atomic, syscall), or it belongs to xgo's own runtime module other than below its test directory; belonging means the path equals the module path or continues it after a slash. That holds for every package, also those loaded later because a mock names them. Packages of the main module and those named on the command line are trapped wholly; of other packages, whatever the whitelists and limits, every function, method or variable that a call of mock.Patch, mock.Mock, trap.AddFuncInterceptor, trap.MarkIntercept, trace.Record* or functab.Info* in the main module names; standard packages beyond that only by the whitelist; all others also their exported functions, within the limits, when everything is to be trapped (asked for, or by default when trap.AddInterceptor or MarkInterceptAll is called). What one mock names is not forgotten for what another names. Every file of each such package is gone through, except test files outside the main module, and what is found is kept for registration or handed to the compiler.",
 over=["programs","configurations"], quant="For all package paths, all sets of mocked functions, methods and variables, and all combinations of the packages' marks and options.",
 why="Whether a function is trapped hangs on a dozen conditions in five packages; a wrong combination shows as a mock that silently does nothing, or as a package that recurses into its own trap.",
 files=["instrument/config/config.go","support/goinfo/pkg.go","instrument/instrument_func/trap.go","instrument/resolve/record.go","instrument/resolve/scope.go","instrument/edit/load.go","instrument/edit/edit.go","instrument/instrument_var/trap_var.go","cmd/xgo/instrument.go"],
 mechanism=[("which packages may be instrumented", "instrument/config/config.go"), ("what mocks name", "instrument/resolve/record.go"), ("choice of functions", "instrument/instrument_func/trap.go"), ("going through packages and files", "cmd/xgo/instrument.go")],
 state=[("Recorder", "what mocks name, by package and name", "instrument/resolve/scope.go")],
 observe=["which functions and variables are trapped in the instrumented sources and in what is handed to the compiler"],
 technique="path enumeration of the deciding functions against their truth tables (conditions resolved on SSA, per path), guard and loop-coverage analysis of the code that applies the decisions", note=NOTE),
dict(id="I10", title="Edits to a source file are applied exactly",
 statement="An edit made to a file's source is recorded with exactly the range and the text given (an end of -1 means the end of the source), or refused when the range is not within the source or ends before it starts. The result is the source with each edit's range replaced by its text: edits in order of their start, then of their end (an insertion precedes a replacement of the text behind it), those at the same place in the order they were made, everything between them as it was, overlapping ones refused. The source is never written, recorded edits change no more, and each is shown as it is to who asks. Positions are turned into the offset of the file they belong to, and every file is edited on the text it was read with. For coverage, behind the edited text and on lines of their own, the notes the cover tool looks for give the file's path (quoted), all its edits with start, end and text, and the original (quoted) of that same file.",
 over=["inputs","histories"], quant="For all sources, all sequences of insertions, deletions and replacements in any order of positions, and all positions.",
 why="Everything xgo rewrites goes through this buffer; a wrong tie, an unstable order or an offset off by one shows only with several edits at one place, or many of them.",
 files=["support/edit/edit.go","support/edit/goedit/goedit.go","instrument/edit/edit.go","instrument/instrument_go/go_tool_cover.go"],
 mechanism=[("queue of edits and their application", "support/edit/edit.go"), ("positions to offsets", "support/edit/goedit/goedit.go"), ("notes for coverage", "instrument/instrument_go/go_tool_cover.go")],
 state=[("Buffer", "source and recorded edits", "support/edit/edit.go")],
 observe=["the rewritten source; the notes at its end"],
 technique="path enumeration of the recorders and of one step of the applying loop, decision of the order over all relations of the positions, effect analysis of the source and the queue, dataflow of the positions", note=NOTE),
]
