c("C08", PATHS, "Decides for every hook the library can build that every path through it runs exactly the branch the property names, once, with the arguments of the call and returning its results; all argument lists, branch counts and configurations.")
c("C09", PATHS, "Decides which paths of a hook are taken for the configured and for another goroutine; all filter settings.")
c("C10", PATHS, "Decides which counter each path of a hook increments, that this is atomic, and that removal zeroes both.")
c("C12", PATHS, "Decides for every accepted condition and replacement which arguments it is called with and that the variadic slice is passed as it is; all targets, argument lists and signatures.")
c("C13", PATHS, "Decides the values every declared answer yields, that counts and convertibility are checked first, and the conversion of each; all result lists.")
c("C15", PATHS, "Decides the step every call of a sequence takes, under its lock; all lengths, repeat counts and positions.")
c("C24", PATHS, "Decides which signatures each declaring function accepts, all others ending in a panic.")
HIST = "abstract interpretation over a heap of known shape, compared with a typestate model of mocks and contexts"
c("C05", HIST, "Runs histories of installing, removing and nested contexts ended by return, panic and exit symbolically from the initial registry and compares every effect with the model; all histories up to a length, and chosen longer ones.")
c("C06", HIST, "Same histories for idempotence and for the registry, plus the critical section of installing and removing on every path.")
c("C07", HIST, "Same histories for re-mocks in the same and in nested contexts, including the location named in the panic.")
c("C11", HIST, "Same histories for every reconfiguring operation: order of effects, which configuration changes, refusal with several branches, release; the installed replacement is checked by the dispatch rule.")
c("C16", HIST, "Same histories for variables: value given, value restored, zero values, values that do not fit, nested mocks.")
c("C29", HIST, "After every step of the histories everything an installed mock jumps to must be reachable from the globals of the library.")
c("C14", PATHS, "Decides for every hook what the origin function calls and with which arguments, that it is bound before anything of the user runs and that it alters neither arguments nor results; known findings on binding, closure context and position of moved code.")
c("C20", PATHS, "Every way the library's functions panic is judged: none after an effect on code, variables, contexts or mocks in force; installing rejects what is too short or cannot be decoded before writing.")
c("C25", HIST, "Runs chains of declarations symbolically and compares branches, rejections and options with a model; all chains up to a length.")
CODE = "abstract interpretation of the type-checked SSA over symbolic memory, with the machine code it builds decoded bit by bit"
c("C01", CODE, "Decides on every path of installing and removing that what is written back is what was read at the same address before the change, covering all that was replaced; all targets and addresses, linux/amd64 and linux/arm64.")
c("C02", CODE, "Decodes the symbolic entry and continuation code: where they go for every address, which registers they change, whole instructions only; one known finding on arm64.")
c("C03", PATHS, "Decides with an inductive argument over the page loop that exactly the bytes given are written, page by page, with protections per page; all addresses and lengths.")
c("C04", PATHS, "Decides that every code write lies between a stop and the matching start on all paths, nothing in between that may block, print, panic or spawn.")
c("C23", CODE, "Decides protection, order, extent and release of the memory of moved code on every path of installing and removing.")
c("C28", PATHS, "Decides that the outcome of every memory operation is looked at and a failure ends in a panic with nothing done after it.")
c("C21", CODE, "Runs the search for the body over symbolic code as an automaton of decoded instructions: which calls count, the address computed for each displacement, what ends the search, and the addresses excluded, for plain and race builds and both processors.")
FLOW = "information-flow and effect analysis of the type-checked SSA"
c("C22", FLOW, "Follows the debug flag through values, control, variables, calls and closures of every platform's code; what depends on it may only compute and print, may not fail, and formats nothing whose methods are the user's.")
c("C19", "constant propagation through the type-checked SSA over modelled reflection and the type descriptors of the toolchain's internal/abi", "For 24 shapes of instance types, as values, pointers, nil pointers and with nil embedded values, and 35 names each, every lookup must give the function of that very name with the receiver first, or panic.")
c("C26", "constant propagation through the type-checked SSA over stacks composed from the call graph", "For every chain of library functions that can lead to the request of a location, and every shape of function names above it, the location found must be the innermost one outside the package; histories tell that it is the one recorded.")
c("C27", HIST, "Follows calls of mocks over a heap of known shape with the mock removed before the first step and within every function of the user they call: they must go the same way; and decides what removal does to the memory and the function of the moved original (known finding: it is released at once).")
TIES = "type-level comparison of the library's declarations with the runtime's own source"
c("C17", TIES+", and constant propagation of method lookup over each release's type descriptors", "Every linked symbol must exist with that signature, and every view of runtime memory must find a value of that size, in the sources of Go 1.23 to 1.27 (older ones: a table for what stops the world); method lookup is propagated over the descriptors of each of these releases. Go 1.18 to 1.22 have no source here.")
c("C18", "constant propagation of the package's start-up and of the read over every release's version strings, compared with the offset of runtime.g.goid; abstract execution of the assembly", "Decides for every release from 1.18 to 1.27 and its point releases that what is read is the goid of the g the assembly gives, read anew on every call; development versions of Go are not covered.")
c("C30", "type checking in every configuration, abstract execution of the assembly, abstract interpretation of the Windows variants", "Type-checks all systems, processors, tags and releases; follows every path of every assembly routine against the Go frame layout and a contract of its effects; decides what the Windows variants ask of the system and report.")
c("C32", PATHS+" over a symbolic instruction stream", "Decides for every content of the probe and of the environment variable whether the warning is printed, and that the probe's calls are such that exactly inlining removes them (assumed of the compiler: empty leaf functions are inlined unless -l is given).")
c("C33", PATHS, "Decides the terms the methods of the information give for every information and index, where it stands among the arguments of replacements and which argument conditions and replacements get for it; known finding: for methods the compiler passes it after the receiver.")
c("C34", "effect and lockset analysis over the paths found by abstract interpretation of the type-checked SSA", "On every path of every replacement, of what conditions, replacements and declared results are wrapped into, and of sequences, each write to memory not allocated by the call must be atomic or under one exclusive lock common to all accesses; known finding: the origin variable.")
c("C35", PATHS+" from the state the package initialisation leaves", "Propagates the start-up with the variable being \"true\" and being anything else, and explores every function with a printing call, and the callers its parameters leave open, from both outcomes: without debug mode no path may print, with it some path must; whatever writes the switch outside the start-up and the function for it is a violation. Text printed by the standard library or by the user's functions is not considered.")
c("C36", PATHS, "On every path of every replacement and of what conditions, replacements and originals are wrapped into, a panic of the user's function must leave with its own value, and the user's functions run on the calling goroutine only; histories tell the same for functions given to PatchConvey.")
c("C37", "lockset and lock-order analysis over the paths found by abstract interpretation of the type-checked SSA", "On every path of every function and replacement, and in histories over concrete registries, locks are matched, not reacquired, not held over calls of the user's code, and nested acyclically.")
NA["C31"] = "Quantifies over thread schedules at the level of single instructions and over what the processor fetches while several bytes are being copied: no static argument over the source bounds that. Where the world can be stopped, C04 decides that every write of code happens while it is; default builds for Go 1.23 and later cannot stop it, so there the property is known not to be guaranteed."
