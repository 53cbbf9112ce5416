# Source of properties.jsonl and MANIFEST.json: python3 tools/gen.py
P = []


def p(id, title, statement, over, text, why, files, mech, level_note, technique, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level_note=level_note, technique=technique, state=state, observe=observe, hook=hook))


DST = "deterministic simulation with fault injection: "
SAMPLED = "Seeded sampling, not exhaustive: a clean run is evidence. Trusts the simulated C runtime and Windows file system (validated by assembling the whole regression set in the simulator) and the compiler. "

p("C01", "Exit status 0 means the complete object file is on disk",
  "Whatever the output device does (a failed, short or torn write, a full disk, a failing seek, truncation or close, at any point of the run, for every output format), an invocation that exits with status 0 has left exactly the object file that a fault-free run produces. If the object could not be written completely the exit status is nonzero and a message says so.",
  ["fault_sequences", "inputs", "configurations"], "every sequence of output faults on the object file x every program, output format and stdio buffer size",
  "The tests only compare finished objects of runs in which every write succeeds; no test has a failing device.",
  ["coff.c", "elf.c", "omf.c", "bin.c", "macho64.c", "assemble.c", "errmsg.c"],
  [("WriteError() after every checked fwrite/fseek of the object writers", "coff.c, elf.c, bin.c, macho64.c, omf.c, omfint.c"), ("fclose of the object checked in close_files()", "assemble.c: close_files()")],
  SAMPLED + "Oracle: byte equality with the fault-free object of the same simulated environment.", DST + "output-device faults against the fault-free object as reference", observe=["exit status", "object file bytes", "console"])

p("C02", "Exit status 0 means listing, symbol, .def, -EP output are complete too",
  "Whatever the output device does to them (failed, short or torn writes, full disk, failing close or create), an invocation that exits with status 0 has written every requested auxiliary output completely: the listing, the error file, the symbol dump, the import definition file and the preprocessed text on standard output.",
  ["fault_sequences", "inputs", "configurations"], "every sequence of output faults on the auxiliary files x every program and option set requesting them",
  "No test makes a write to a listing, error, symbol or definition file fail.",
  ["listing.c", "errmsg.c", "symbols.c", "assemble.c", "preproc.c", "cmdline.c"],
  [("ferror()/fclose() checks in close_files()", "assemble.c"), ("write checks of the listing, symbol file, import definitions and -EP output", "listing.c, symbols.c, assemble.c, preproc.c")],
  SAMPLED + "Oracle: byte equality with the fault-free outputs.", DST + "output-device faults on auxiliary outputs against the fault-free outputs as reference", observe=["exit status", "auxiliary files", "standard output"])

p("C03", "A failed assembly leaves no object file, neither new nor stale",
  "When an invocation that assembled an existing source ends with a nonzero status because that source was in error or a fault was met, no file exists at the path of its object: neither a partial one from this run nor a stale one from an earlier run. The only exceptions are a file system that refuses to delete it and a run that failed before it could know the path.",
  ["inputs", "fault_sequences", "histories"], "every invalid program and every fault on a valid one x stale objects present before x every format",
  "Tests of invalid sources look at the messages; none looks for a left-over object, none starts with a stale one, none fails mid-write.",
  ["assemble.c", "errmsg.c", "main.c"],
  [("close_files() removes the object when error_count is nonzero", "assemble.c: close_files()"), ("Fatal() and WriteError() go through close_files()", "errmsg.c")],
  SAMPLED + "Faults that hit the deletion itself or the creation of that very object are exempt.", DST + "error sources and faults over histories with stale objects", observe=["exit status", "existence of the object"])

p("C04", "A failed read of an input is an error, never a different program",
  "If reading or opening the source, an include file, an INCBIN file or a response file fails at any point (including in the middle of the file, once or persistently), the invocation either reports an error and exits nonzero, or its outputs are exactly those of the undisturbed run. A file that cannot be opened may at most be treated as absent.",
  ["fault_sequences", "inputs", "configurations"], "every input fault at every buffer refill x every program, include depth and buffer size",
  "The tests read intact files only; a read error looks like end of file and would silently truncate the program.",
  ["input.c", "data.c", "directiv.c", "cmdline.c", "fastpass.c", "dbgcv.c"],
  [("ferror() check at end of file", "input.c: my_fgets()/GetTextLine()"), ("short INCBIN reads are errors", "directiv.c: IncBinDirective()"), ("response file read check", "cmdline.c: ReadParamFile()")],
  SAMPLED + "Oracle: byte equality with the undisturbed run, or with the run without the unopenable file.", DST + "input faults (read errors at every refill, failed opens and seeks) against the undisturbed run", observe=["exit status", "all outputs", "console"])

p("C05", "Running out of memory ends in a clean error, never a crash or wrong output",
  "If any single allocation, or all allocations from some point on, fail, or memory is limited to any amount, the invocation ends by itself: either with a message and a nonzero status, or with status 0 and outputs identical to those of an undisturbed run. It never crashes, hangs or reports success with different output.",
  ["fault_sequences", "inputs"], "every failing allocation (single, persistent, budget) x every program",
  "No test fails an allocation.",
  ["memalloc.c", "errmsg.c", "symbols.c", "omf.c", "dbgcv.c", "macro.c", "codegenv2.c"],
  [("MemAlloc()/LclAlloc() end in Fatal(OUT_OF_MEMORY)", "memalloc.c")],
  SAMPLED + "Allocation sites are sampled over the whole run; memory is page-protected so wild accesses are seen as crashes.", DST + "allocation-failure injection", observe=["exit status", "all outputs", "crashes", "non-termination"])

p("C06", "Same inputs, same outputs: no dependence on memory layout or contents",
  "Two invocations with the same command line on the same files produce byte-identical outputs, the same console text (times apart) and the same exit status, whatever the load address, the heap and stack addresses, the previous contents of memory, the recycling of freed blocks, the stdio buffer size, the kind of standard output or unrelated environment variables are.",
  ["configurations", "inputs"], "every perturbation of the process environment x every program and option set",
  "Each test runs once in one environment; an uninitialised read or an ordering by address shows up only when that environment changes.",
  ["symbols.c", "memalloc.c", "assemble.c", "omf.c", "coff.c", "dbgcv.c", "listing.c", "codegenv2.c"],
  [("symbols are hashed by name and sorted by name in listings", "symbols.c, listing.c"), ("structures are cleared at allocation", "memalloc.c callers")],
  SAMPLED + "Contents of fresh heap and stack memory are randomised, so most uninitialised reads become visible.", DST + "randomised address space, memory contents and runtime knobs, differential oracle", observe=["all outputs", "console", "exit status"])

p("C07", "The time enters the outputs only as the time stamps and @Date/@Time",
  "The outputs, messages and exit status of an invocation do not depend on the clock, the date, the time zone, the speed of the clock or on clock jumps during the run, except for the places meant for the time: the time stamp of COFF objects and of PE images (file header, export directory), @Date and @Time, and the times printed in listings and on the console. Each of these shows a time at which the invocation really ran.",
  ["configurations", "schedules", "inputs"], "every date (1980-2105 and after the 32-bit wrap), time zone, clock speed and set of clock jumps x every program and output format",
  "Each test runs once, at one time; a dependence on the clock shows only on other dates or when the clock jumps between two reads.",
  ["assemble.c", "coff.c", "bin.c", "listing.c", "omf.c"],
  [("@Date and @Time are set once per module", "symbols.c: SymInit()"), ("32-bit time stamps", "coff.c, bin.c")],
  SAMPLED + "Oracle: outputs equal those at a reference time after the documented time fields have been checked against the clock values the run was given.", DST + "simulated clock with random dates, zones, speeds and jumps, differential oracle", observe=["all outputs", "console", "exit status", "time stamps"])

p("C08", "Modules assembled in one invocation do not influence each other",
  "When one invocation assembles several modules, each module's object, listing and diagnostics are those it has when assembled alone with the same command-line options in effect, whatever modules precede it, in whatever order, whether they are valid, invalid or hit by an I/O fault. Options and definitions made by a source file end with that module.",
  ["histories", "inputs", "fault_sequences"], "every sequence of modules and options on one command line x faults in one of them",
  "Every test assembles one source per process, so state left behind by a module is never observed.",
  ["assemble.c", "main.c", "cmdline.c", "segment.c", "symbols.c", "omf.c", "proc.c", "simsegm.c", "invoke.c", "option.c"],
  [("AssembleInit()/AssembleFini() reset all per-module state", "assemble.c"), ("per-subsystem Init functions called in pass 1", "assemble.c: OnePass(), *Init()")],
  SAMPLED + "Oracle: the same module alone in a fresh process with the options accumulated so far.", DST + "random module sequences with faults in one module, each module alone as reference", observe=["all outputs", "diagnostics", "exit status"])

p("C09", "The exit status is 0 exactly if every requested module was assembled",
  "An invocation exits with status 0 if and only if every source named on the command line (directly, by wildcard, through a response file or through the environment variable) was found and assembled without errors; a failure of any one of them, at any position, makes the status nonzero. Whenever the status is nonzero an error has been reported.",
  ["histories", "inputs", "fault_sequences"], "every sequence of good, bad, missing and wildcard sources x warning levels x one fault of any kind",
  "The tests look at the exit status of single-source runs only.",
  ["main.c", "cmdline.c", "assemble.c", "errmsg.c"],
  [("result of each AssembleModule() is accumulated", "main.c: main()"), ("-WX turns warnings into errors", "errmsg.c")],
  SAMPLED, DST + "random source lists and faults against a model of the exit status", observe=["exit status", "diagnostics", "existence of objects"])

p("C10", "The object does not depend on how many passes or how big tables it took",
  "What the assembler decides for itself while it runs does not show in the result: superfluous further passes after the program has converged, the block size of its memory arena and the number of collisions in its symbol tables change neither the object file nor the errors reported nor the exit status.",
  ["schedules", "configurations", "inputs"], "every number of extra passes, arena block size and hash width x every valid program",
  "Each test source takes the number of passes, the arena blocks and the collisions it happens to take.",
  ["assemble.c", "memalloc.c", "symbols.c", "backptch.c", "fastpass.c", "equate.c", "branch.c"],
  [("passes go on until nothing changes", "assemble.c: AssembleModule(), PhaseError"), ("every arena block is used the same way", "memalloc.c: LclAlloc()"), ("names are compared after the hash", "symbols.c: SymFind()")],
  SAMPLED + "Uses an image built with -DUASM_SIM, whose hooks only change these decisions. Formats that write symbols in hash order are exempt from narrower hashes.", DST + "seeded internal decisions (buggification hooks), differential oracle", observe=["object file bytes", "errors", "exit status"], hook="UASM_SIM: memalloc.c (arena block size), assemble.c (extra passes), symbols.c (hash bits)")

p("C11", "An interrupted assembly leaves no incomplete object and exits nonzero",
  "If an invocation is interrupted by the user's break signal, or a fault signal is raised, at any instant, it ends by itself with a nonzero status (unless its work was already complete) and no incomplete object file remains: at the object's path there is nothing, the complete object, or an older file this run has not touched.",
  ["crash_points", "inputs"], "every call of the run as the instant of the signal x every program, several modules, faults on top",
  "No test sends a signal.",
  ["main.c", "assemble.c"],
  [("genfailure() closes and deletes", "main.c: genfailure()"), ("close_files()", "assemble.c")],
  SAMPLED + "Signals arrive at calls into the runtime, not between arbitrary instructions.", DST + "signal delivery at seeded instants", observe=["exit status", "object file"])

p("C12", "After any crashes and failures, the next run produces the correct outputs",
  "Whatever happened to earlier invocations in a directory - killed at any instant, disk full, I/O errors, other contents of the source - an undisturbed invocation afterwards produces the same outputs, messages and status as in a fresh directory; nothing left behind by the earlier runs is read, appended to or kept.",
  ["crash_points", "histories", "fault_sequences"], "every history of 1-3 disturbed runs (killed, faulted, edited source) followed by an undisturbed run",
  "Tests start from a clean state and never kill the tool.",
  ["assemble.c", "errmsg.c", "listing.c"],
  [("outputs are created with truncation", "assemble.c: open_files()"), ("stale error files are removed", "assemble.c: open_files()")],
  SAMPLED, DST + "crash-and-restart histories, convergence to the fresh-directory result", observe=["directory contents", "exit status", "console"])

p("C13", "The error file holds exactly the module's diagnostics, or does not exist",
  "After an invocation the .err file of a module contains exactly the diagnostics of that module that appeared on the console, in the same order; if there were none, no .err file exists, not even a stale one from an earlier run. With console output suppressed it still holds them all.",
  ["inputs", "fault_sequences", "histories"], "every program x warning options x stale .err files x one fault of any kind",
  "Tests compare console output of selected error sources; none inspects .err files over histories or under faults.",
  ["errmsg.c", "assemble.c"],
  [("PutMsg() writes each message to console and .err", "errmsg.c: PrtMsg(), PutMsg()"), ("stale .err removed at start", "assemble.c: open_files()")],
  SAMPLED + "Messages that concern the closing of the files themselves are exempt.", DST + "faults and stale files, console history against the error file", observe=[".err file", "console"])

p("C14", "Repeated modules hold no growing resources; no file stays open",
  "Assembling a module again and again in one invocation needs no more memory blocks, mappings or file handles than assembling it twice: every file opened for a module is closed and its memory released when the module is done, whether it succeeded, failed or was hit by a fault. At exit no file or directory search is left open.",
  ["histories", "inputs", "fault_sequences"], "every module x number of repetitions x faults",
  "A leak does not change any output, so no test sees it; handle exhaustion needs many modules.",
  ["memalloc.c", "assemble.c", "input.c", "macro.c", "macho64.c", "symbols.c"],
  [("FreeLibQueue/FreeFiles/LclFini at the end of a module", "assemble.c: AssembleFini()"), ("close_files()", "assemble.c")],
  SAMPLED + "A warm-up of two modules is not counted.", DST + "resource accounting over repeated modules and faults", observe=["live heap blocks and mappings at exit", "open handles", "status under a small handle limit"])

p("C15", "Under any storm of faults an invocation ends by itself with a status",
  "For any program and any combination of I/O errors, full disk, allocation failures, signals and clock jumps, an invocation terminates within a bounded number of steps and ends with a proper exit status: it never hangs, loops, recurses without bound or dies from an invalid memory access, and a program that must be rejected is never accepted.",
  ["fault_sequences", "inputs"], "every combination of up to 6 faults x programs that end normally without faults",
  "No test injects any fault, let alone several.",
  ["errmsg.c", "assemble.c", "main.c", "memalloc.c", "input.c"],
  [("Fatal() -> close_files() -> exit, re-entry safe", "errmsg.c, assemble.c")],
  SAMPLED + "Bound: 20 times the calls of the undisturbed run + 200000.", DST + "storms of mixed faults, bounded liveness", observe=["termination", "exit status", "crashes"])

p("C16", "Concurrent invocations in one directory do not disturb each other",
  "Several invocations running at the same time in one directory, on different sources or with different output names and sharing include files, each produce the outputs, messages and status they produce alone, for every interleaving, even if one of them is killed or fails; no extra file is left.",
  ["schedules", "crash_points", "inputs"], "every interleaving (at file-system and runtime calls) of 2-3 invocations x one of them killed or out of memory",
  "Tests run one process at a time per directory, and parallel test runs do not control the interleaving.",
  ["assemble.c", "input.c", "cmdline.c", "errmsg.c"],
  [("no temporary or lock files; every output name is derived from the source name or an option", "assemble.c: SetFilenames()"), ("inputs are opened for sharing, never written", "input.c")],
  SAMPLED + "Processes are real code of the tool in one simulator, preempted at every runtime call.", DST + "seeded schedules of concurrent processes against each one alone", observe=["all outputs", "console", "exit status"])

p("C17", "Only the declared output files are written; nothing else is touched",
  "An invocation creates, writes, truncates or deletes only its declared outputs - the object, listing, error, symbol and definition files at the paths that the naming options or the documented defaults give - whether it succeeds, fails, is interrupted, killed or hit by any fault. Sources, include files and every other file stay as they were.",
  ["configurations", "fault_sequences", "crash_points", "inputs"], "every combination of output naming options x faults, kills and signals x unrelated files present",
  "Tests look at the files they expect, never at the files they do not expect.",
  ["assemble.c", "cmdline.c", "errmsg.c", "symbols.c"],
  [("SetFilenames() and -Fo/-Fl/-Fw/-Fs/-Fd handling", "assemble.c, cmdline.c")],
  SAMPLED + "Oracle: a reference model of the naming rules; every path the simulated file system sees modified is compared with it.", DST + "file-system effects under faults against a model of the naming rules", observe=["paths touched", "contents of unrelated files"])

p("C18", "An input file that changes meanwhile is used in one version or refused",
  "If one input file - source, include, INCBIN or response file - is replaced by another version or removed by somebody else while an invocation runs, the invocation ends by itself: either it exits with status 0 and the objects of the old version or those of the new version, never a mixture of passes, or it reports an error and exits nonzero. It never crashes or loops, whatever grows or shrinks from one pass to the next.",
  ["schedules", "inputs", "fault_sequences"], "every instant (call) of the run x every input file x other versions of it (lines added, removed, changed, truncated, emptied, grown) or its removal",
  "Tests have inputs that nobody touches; the instant decides which pass sees which version.",
  ["directiv.c", "input.c", "assemble.c", "segment.c", "fastpass.c"],
  [("text files are read once, the lines are stored for the later passes", "fastpass.c, input.c"), ("passes repeat until sizes are stable", "assemble.c: AssembleModule()"), ("the code buffer grows with the segments", "segment.c: SegmentRoom(), SegmentInit()")],
  SAMPLED + "Files change between two calls of the program and not while it has them open (Windows would allow rewriting in place; C15 injects that). CodeView 8 source checksums are those at the end of the run and are exempt.", DST + "input files replaced or removed at seeded instants, against the runs on the old and on the new version", observe=["objects", "exit status", "termination", "console"])

p("C19", "INCLUDE, INCBIN and -Fi find files by the documented search order",
  "For every directory tree, a relative name in INCLUDE, INCBIN or -Fi is looked up in the directory of the source or include file that contains it, then relative to the current directory, then in the -I directories in their order, then (unless -X) in those of the INCLUDE variable; the first file that can be opened is used, by every pass alike, also when the directive comes out of a macro; a combination too long for a path is no file, and no other error. If none can be opened the exit status is nonzero, an error names the file and the place that asked for it, and no object is left.",
  ["inputs", "configurations", "fault_sequences"], "every directory tree with files of equal names x nesting of include files and macros x spellings of paths and search lists x files that cannot be opened",
  "Tests keep all files in one directory; equal names in several directories, unopenable candidates and the searches of later passes never occur.",
  ["input.c", "directiv.c", "assemble.c", "fastpass.c", "cmdline.c"],
  [("search order", "input.c: SearchFile(), open_file_in_include_path()"), ("INCLUDE variable and -I list", "assemble.c: CmdlParamsInit()"), ("stored lines carry their source file into later passes", "fastpass.c: StoreLine()")],
  SAMPLED + "Oracle: an executable model of the search order that computes every byte of a -bin object.", DST + "generated directory trees and failed opens against a reference model of the search order", observe=["object bytes", "exit status", "error messages"])

p("C20", "Equivalent command lines give the same outputs, messages and status",
  "Arguments mean the same wherever they come from: given directly, as a prefix in the UASM environment variable, in response files or in environment variables named by @, nested to any documented depth, separated by any white space, quoted, followed by Ctrl-Z, with options introduced by '-' or '/'. All outputs, diagnostics and the exit status equal those of the direct command line, also when the same fault hits an input or output file.",
  ["configurations", "inputs", "fault_sequences"], "every way to distribute the arguments of an invocation over these places x modules and options between them x faults",
  "The tests pass all options directly.",
  ["cmdline.c", "main.c"],
  [("parsing of options, response files and the environment", "cmdline.c: ParseCmdline(), getnextcmdstring(), ReadParamFile()"), ("UASM variable as first argument", "main.c")],
  SAMPLED + "Limits: names with blanks only in quotes, a name in the UASM variable takes the rest of it (as documented).", DST + "metamorphic comparison of seeded equivalent command lines, with the same faults", observe=["all outputs", "diagnostics", "exit status"])

p("C21", "Listing, messages and other reports never influence the object",
  "Options that only report (listing and its contents, symbol dump, error file, warning level, quiet, logo, error limit, terminal or file as console) and faults on these reports, standard output included, never change the object: whenever the exit status is 0 the object is that of the run without any reporting, undisturbed reports do not change the exit status, and a failing report leaves no wrong object.",
  ["configurations", "fault_sequences", "inputs"], "every program x combination of reporting options x faults on the reporting outputs",
  "The tests compare objects of fixed option sets; they never compare with and without a listing, nor with a failing console.",
  ["listing.c", "errmsg.c", "symbols.c", "assemble.c", "cmdline.c", "macro.c"],
  [("listing written in the passes that also generate code", "listing.c: LstWrite(), assemble.c"), ("symbol dump", "symbols.c"), ("messages", "errmsg.c")],
  SAMPLED + "Oracle: byte equality with the object of the run without reporting options.", DST + "runs with reports and faults on them against the run without reports", observe=["object bytes", "exit status"])

p("C22", "An aborted run disturbs the outputs of at most one module",
  "When an invocation over several modules is killed, interrupted by a signal or runs out of memory at any instant, then in the order of the modules: the outputs of all modules that were finished are complete on disk, exactly as an undisturbed run leaves them; at most one module's outputs are in between; those of all later modules are untouched, whatever earlier runs left there.",
  ["crash_points", "histories", "inputs", "fault_sequences"], "every instant of the run x every list of modules x stale outputs present or not",
  "No test kills an invocation or looks at modules behind the one that failed.",
  ["main.c", "assemble.c", "errmsg.c"],
  [("outputs of a module are opened, written and closed within AssembleModule()", "assemble.c: AssembleModule(), open_files(), close_files()"), ("modules are processed one after another", "main.c")],
  SAMPLED + "Durable is what reached the simulated device before the kill.", DST + "kills, signals and exhausted memory at seeded instants of multi-module runs", observe=["all outputs of all modules"])

p("C23", "A failed file operation is reported with the name of that file",
  "When one operation on one file fails - opening, creating, reading, seeking, writing, truncating, closing, deleting, looking it up - or the disk is full, then every message about a file operation that this causes names that file and no other; if the failure makes the invocation end with nonzero status, there is such a message; and for sources, include files and objects the message gives the system's error number of that failure. A name that is too long for the system is such a failure, never a crash.",
  ["fault_sequences", "inputs", "configurations"], "every operation on every file x every error number x formats, options, several modules, outputs of earlier runs present or not",
  "The tests contain one missing file; no test makes an operation on an existing file fail, and the name and the reason have to survive the cleaning up in between.",
  ["errmsg.c", "assemble.c", "input.c", "directiv.c", "main.c", "omf.c", "listing.c"],
  [("messages with name and errno", "errmsg.c: ErrnoStr(), WriteError(), Fatal(); assemble.c: open_files(), close_files()"), ("inputs", "input.c, directiv.c, main.c")],
  SAMPLED + "One fault per run. A search that fails goes on elsewhere, so ENOENT is accepted as the reason after a failed open; reports are checked for the name only, since their write errors are noticed when they are closed; the console is left out.", DST + "single faults on every kind of operation; the messages compared with the fault that was injected", observe=["messages", "exit status"])

p("C24", "The outputs do not depend on where the working directory lies",
  "When the working directory with everything in it lies somewhere else - on another drive, in a root directory, very deep, under a name with blanks, dots or percent signs - the same command with relative names gives the same objects, reports, messages and exit status, also if the same operation fails in both places (CodeView 8 debug information names the directory and differs in that name only); and an object without file names in it does not depend on how its source is named (absolute, with .\\ or ..\\, in other case).",
  ["configurations", "inputs", "fault_sequences"], "every place and spelling x every workload, format and option x undisturbed or one fault",
  "The tests run in one directory and with one spelling.",
  ["input.c", "assemble.c", "cmdline.c", "dbgcv.c", "main.c"],
  [("names are kept as given, not made absolute", "input.c: AddFile(), SearchFile()"), ("output names from the source's name part", "assemble.c: SetFilenames()"), ("current directory in CodeView 8", "dbgcv.c: cv_write_debug_tables()")],
  SAMPLED + "Oracle: the same run in the reference directory.", DST + "the same run, with the same fault, in two places of the simulated file system", observe=["all outputs", "messages", "exit status"])

p("C25", "How a program is divided into files does not change what it means",
  "When stretches of a program's text are moved to include files (one after the other, nested, in other directories, the beginning to an -Fi file), when its lines end otherwise, when the last line has no end or ^Z follows it, and whatever the sizes of the reads that deliver it, the object, the exit status and the texts of the diagnostics are those of the undivided program; with a failing operation on one of the files the assembly fails or gives that same object.",
  ["inputs", "configurations", "fault_sequences"], "every workload x seeded divisions into up to 60 files x delivery of the bytes x undisturbed or one fault",
  "The tests have few include files, all in one directory, and none that could be compared with the undivided program.",
  ["input.c", "directiv.c", "tokenize.c", "fastpass.c", "assemble.c", "macro.c"],
  [("the stack of sources and its reuse", "input.c: PushSrcItem(), GetTextLine(), SearchFile()"), ("line reading", "input.c: my_fgets()"), ("lines stored for further passes", "fastpass.c: StoreLine(), assemble.c: OnePass()")],
  SAMPLED + "Oracle: the run of the undivided program.", DST + "the same program from differently divided, differently delivered files", observe=["object file bytes", "messages", "exit status"])

NA = []


def na(id, title, statement, files, mech, why, reason):
    NA.append(id)
    P.append(dict(id=id, title=title, statement=statement, over=["inputs", "programs"], text="every source program", why=why, files=files, mech=mech, na=reason, state=(), observe=["object file bytes", "listing"], hook=None))


PURE = "A pure function of the source text: no schedule, clock, fault, crash or interleaving can change it, so simulation would be input generation only. "

na("C30", "Every accepted instruction is encoded as the processor manuals specify",
   "For every mnemonic, operand combination, prefix and addressing mode that the assembler accepts, the emitted bytes decode to that instruction with those operands, and no combination the processor cannot execute is accepted.",
   ["codegen.c", "codegenv2.c", "parser.c", "H/instruct.h", "H/InstrTableV2.h"], [("instruction tables", "H/instruct.h, H/instravx.h"), ("encoders", "codegen.c, codegenv2.c")],
   "The test sources contain a few thousand of the operand combinations.", PURE)
na("C31", "Expressions evaluate to their mathematical value with correct precedence",
   "Every constant expression evaluates to the value its operators define, with the documented precedence and the full integer and floating-point width, or is rejected with an error; relocatable expressions yield a correct fixup or an error.",
   ["expreval.c", "reswords.c", "atofloat.c"], [("operator precedence and evaluation", "expreval.c")], "Tests sample a few hundred expressions.", PURE)
na("C32", "Macro expansion follows the documented substitution rules",
   "Macro parameters, defaults, REQ/VARARG, LOCAL names, string and text operators, nested and recursive macros and loops expand exactly as documented, and hidden LOCAL names are unique in a module.",
   ["macro.c", "expans.c", "loop.c", "macrolib.c"], [("substitution", "macro.c, expans.c")], "Tests contain single examples of each construct.", PURE)
na("C33", "Structures, unions, records and data are laid out as declared",
   "Offsets, sizes and alignment of all members and data items follow the declared types and the alignment options, and initialisers put each value at the member's place.",
   ["types.c", "data.c"], [("layout", "types.c")], "Only examples.", PURE)
na("C34", "Branches reach their targets and use the shortest encoding that does",
   "For any distance between a jump and its target the final code jumps to that target, however many passes the optimisation of jump sizes needs, and every label in listing and object has the address the code has.",
   ["branch.c", "assemble.c", "fixup.c"], [("jump optimisation over passes", "branch.c, assemble.c")], "Only examples of distances and nestings.", PURE + "The part that depends on repetition, that further passes do not change the result, is claimed as C10.")
na("C35", "Object files conform to their formats and relocations resolve correctly",
   "Every COFF, ELF, OMF, Mach-O, PE, MZ and binary file is well-formed, and after linking every reference resolves to the address of its target.",
   ["coff.c", "elf.c", "omf.c", "macho64.c", "bin.c", "fixup.c"], [("format writers", "coff.c, elf.c, omf.c, bin.c, macho64.c")], "Tests compare bytes with stored files for a few sources.", PURE)
na("C36", "INVOKE, PROC and HLL directives generate code obeying the calling convention",
   "For every language type, argument list and set of locals, the generated prologues, epilogues, argument passing, stack alignment and unwind data obey the platform calling convention, and .IF/.WHILE/.FOR conditions branch as their expressions say.",
   ["invoke.c", "proc.c", "hll.c", "mangle.c"], [("code generation", "invoke.c, proc.c, hll.c")], "Only examples.", PURE)
na("C37", "No source text makes the assembler access memory out of bounds",
   "For every byte sequence as source, the assembler ends with success or diagnostics and never reads or writes outside its buffers.",
   ["tokenize.c", "macro.c", "expans.c", "input.c", "data.c"], [("length checks of lines, tokens and strings", "tokenize.c, input.c")], "Tests contain well-formed lines.", PURE + "That faults do not cause crashes on programs that are otherwise handled is claimed as C05 and C15.")
na("C38", "Symbols resolve by the documented scoping and case rules",
   "Names are visible, exported, decorated and compared as the language type, visibility and casemap options document, and duplicates are rejected.",
   ["symbols.c", "mangle.c", "extern.c", "label.c"], [("hash tables for global and local symbols", "symbols.c")], "Only examples.", PURE)
na("C39", "Debug information describes the program that was assembled",
   "CodeView symbols, types and line numbers written with -Zi and -Zd describe exactly the symbols, types and source lines of the code in the object.",
   ["dbgcv.c", "linnum.c", "omf.c"], [("CodeView writers", "dbgcv.c, linnum.c")], "Only a few sources with stored bytes.", PURE)
