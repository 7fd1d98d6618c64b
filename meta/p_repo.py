NOTE = "Static analysis; sound for the constructs and call paths it enumerates (listed in the evidence file), silent about what lies outside them (see DESIGN.md)."
P = [
dict(id="E01", title="A step that fails makes the command fail; no error is lost",
 statement="Whenever a step of xgo fails - reading, writing, copying, parsing, patching, running a command - its error reaches whoever asked for the step: a function that returns an error returns this one, wraps it or returns another; a recovered panic becomes the function's error; the command ends with a status other than 0. An error may be let pass only for being of a kind that is an answer (a file that may be absent is absent, the end of the input), and only where xgo documents or evidently intends it: best effort clean-up, logs, and probing for optional files.",
 over=["fault_sequences"], quant="For all paths of all functions of instrument/, support/ and cmd/xgo on which a call returned an error, whatever made it fail.",
 why="There are almost 900 calls that can fail and tests make hardly any of them fail; a lost error shows as a program built from half written or missing files.",
 files=["instrument","support","cmd/xgo/main.go","cmd/xgo/patch.go","cmd/xgo/instrument.go","support/cmd/cmd.go","support/fileutil","support/filecopy/copy.go","instrument/patch/apply.go","instrument/overlay/io.go"],
 mechanism=[("error results", "instrument/, support/, cmd/xgo/"), ("exit status", "cmd/xgo/main.go")],
 observe=["errors returned by the exported functions of instrument/ and support/", "exit status of xgo"],
 technique="path-sensitive dataflow of each error value over the SSA (nil tests, kinds told apart, wrapping, storing), against a table of judged discards", note=NOTE),
dict(id="F01", title="A directory copy is complete or reported as failed",
 statement="Copying a directory (the Go tree, the source of packages) makes every directory, symbolic link and regular file of the source at the corresponding place under the target, with all of its bytes, except what the options name: an ignored path is that exact path, suffixes speak of files only. With several workers the outcome is the same as with one: every file handed out is copied or the copy fails, no worker blocks for ever or outlives the call, and workers share no buffer. Only a replacing copy removes the target first, never the root of a file system, and never a directory that was to be added to.",
 over=["inputs","schedules","fault_sequences"], quant="For every source tree, every combination of options, every number of workers, every interleaving of them and every failure of any of them.",
 why="Which worker fails and when, what else is in the channel at that time and what a tree contains cannot be sampled; a lost file or error shows as a broken Go installation much later.",
 files=["support/filecopy/copy.go"],
 mechanism=[("the walk", "copyDirHandle"), ("workers", "copyReplaceDir"), ("one file", "copyFile"), ("links", "LinkFiles")],
 observe=["the target tree after the copy", "the error returned"],
 technique="typestate of each unit through the worker loop, dominance and must-pass queries for close/wait/drain, and guard implication on every way an entry is passed over, over the SSA", note=NOTE),
dict(id="F02", title="Loading packages in parallel loses no file and publishes none too early",
 statement="Loading packages yields, for each package go list names for the arguments and options given and in its order, each Go file the package lists (its test files when asked for), in the order listed, with the overlaid content (line ends normalised), and the syntax or the error that belongs to this very content. No interleaving of the readers and parsers loses a file, counts one twice, returns before all are done, blocks for ever, or lets the caller see a file whose result is not recorded yet; a file is left out only when it failed and the caller asked for failed files to be left out.",
 over=["inputs","schedules","fault_sequences"], quant="For all packages and files, overlays and options, all numbers of processors, and all interleavings of the workers and failures of reading or parsing.",
 why="Thousands of files pass two pools connected by channels; a file reported done a statement too early is lost in one run of thousands, which tests of a few files do not show.",
 files=["instrument/load/load.go"],
 mechanism=[("workers and their count", "LoadPackages"), ("content", "readFile, parseFile"), ("filter", "LoadPackages")],
 observe=["the packages and files LoadPackages returns"],
 technique="typestate of each unit through the worker loops (settled exactly once, nothing recorded afterwards), count/wait dominance, whole-loop and guard analysis of hand-out and filter, over the SSA", note=NOTE),
dict(id="O01", title="What xgo reads of a file is what the build compiles",
 statement="Within one run every file has one identity, whatever spelling of its path is used (relative to the project, through symbolic links, with other separators). What xgo reads, and the size it answers, come from the same place: the content it has written for the file, else the file the caller's -overlay redirects it to, else the file itself; a file the caller's overlay removes does not exist. The overlay given to the go command maps each file to that same place: instrumented content takes precedence and is preceded by a directive making its lines those of the original, mappings are followed to their end, cycles are refused, and every spelling the caller used is mapped. Of several keys naming one file the same one decides everywhere and on every run.",
 over=["inputs","configurations"], quant="For all overlays of the caller (chains, cycles, aliases, relative paths, removed files), all sets of files xgo overrides, and all spellings of a path.",
 why="The order of map iteration, symbolic links and chains of replacement multiply; when reading and building disagree, the program built is one that was never instrumented.",
 files=["instrument/overlay/overlay.go","instrument/overlay/io.go","cmd/xgo/main.go"],
 mechanism=[("identity", "absFileKey, ResolveAbsFile, evalSymlinksAbs"), ("reading", "Overlay.Size, Read, ReadBytes"), ("emission", "MakeGoOverlay, getPathMapping"), ("composition", "ComposeGoOverlays, CanonicalReplace, ProjectOntoCallerSources, ApplyFileRedirects")],
 observe=["the results of Overlay.Read, ReadBytes and Size", "the Replace map ComposeGoOverlays returns and the command writes"],
 technique="path enumeration of the small overlay functions with the conditions each path knows (entry kind, empty target), key-identity and whole-loop queries, and must-pass queries in the command, over the SSA", note=NOTE),
dict(id="G01", title="The same input gives the same output, on every run",
 statement="Instrumenting the same sources with the same options and toolchain writes the same files, overlay, environment and commands on every run. Nothing generated depends on the order in which a map is iterated, on the clock or on random numbers: what is gathered from a map is put into a total order before it is written, numbered or searched for a first match, and names and indexes given to generated code depend on the source alone. Excepted are which of several errors is reported, log lines, and the relative order of environment entries with different keys.",
 over=["inputs","histories"], quant="For all inputs and all iteration orders of every map of instrument/, support/ and cmd/xgo that reach generated output.",
 why="Map order changes with every run, so a test passes most of the time on code that differs from run to run; the build cache is then never hit, or two halves of a build disagree.",
 files=["instrument/overlay/overlay.go","instrument/resolve","instrument/config","instrument/edit","instrument/patch/apply.go","support/goinfo","cmd/xgo/main.go","cmd/xgo/patch.go"],
 mechanism=[("map loops", "every range over a map in instrument/, support/, cmd/xgo/"), ("orders", "sort.Slice and its comparators"), ("clock", "time.Now, math/rand")],
 observe=["the generated files, overlay and commands of two runs"],
 technique="commutation analysis of every map loop body (effects keyed by the map key, sums, sets, sorted before use) and total-order analysis of comparators, over the SSA", note=NOTE),
]
