#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the text is readable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "observe_at": list(observe), "hook_needed": None}})

PATCH = "internal/monkey/patch.go"
p("C01", "Removing a mock restores the target's code exactly",
  "When a mock is removed, the code of the mocked function is, byte for byte, what it was when that mock was installed, whatever the function, its address and the first instructions it consists of. No other byte of the code is different from before.",
  ["inputs", "histories"], "every target function (any address, any instruction lengths at its entry), every install/remove sequence in which mocks of one function are removed in reverse order",
  "Tests remove mocks of a dozen functions that happen to sit at a few addresses with a few kinds of prologue; instruction lengths, page straddling and the exact number of saved bytes are never varied.",
  [PATCH, "internal/monkey/inst/disasm_amd64.go", "internal/monkey/inst/disasm_arm64.go", "internal/monkey/mem/write.go", "mock.go"],
  [("save before overwrite, restore the saved prefix", "PatchValue / (*Patch).Unpatch"), ("cutting point covers the jump", "inst.Disassemble"), ("page-wise write", "mem.WriteWithSTW"), ("removal undoes the recorded patch", "(*Mocker).UnPatch")],
  ["code bytes of the target after UnPatch"], [("saved code", "original bytes, base address and length", PATCH)])
p("C02", "A call of a mocked function reaches its replacement intact",
  "For every address of target and replacement and on every supported processor, the code put at the entry of the target transfers control to the replacement with the replacement's own closure context, leaving stack and argument registers alone. The relocated entry of the original is made of whole instructions and continues at the first instruction that was not moved.",
  ["inputs", "configurations"], "every 64-bit address of the replacement and of the target, amd64 and arm64, every instruction sequence at the entry",
  "The existing tests check one constant and whatever addresses the allocator returns; a wrong bit in an address field only shows for some addresses, and arm64 code is never executed here.",
  ["internal/monkey/inst/inst_amd64.go", "internal/monkey/inst/inst_arm64.go", "internal/monkey/inst/disasm_amd64.go", "internal/monkey/inst/disasm_arm64.go", PATCH, "internal/monkey/fn/inject.go", "internal/monkey/common/transform.go"],
  [("branch encoders", "inst.BranchTo / inst.BranchInto"), ("cutting point", "inst.Disassemble"), ("context word of the replacement", "common.PtrAt"), ("proxy construction", "PatchValue, fn.InjectInto")],
  ["the replacement is entered", "calling the original through the proxy"])
p("C03", "A code write changes the requested bytes and nothing else",
  "Writing a block of bytes at an address makes exactly these bytes equal to the block, in order, however many pages the range spans and wherever it starts. Afterwards, on Linux and macOS, each page written to is executable and no longer writable, and no page outside the range had its protection changed.",
  ["inputs", "configurations", "fault_sequences"], "every address, every length, every page size, every outcome of the protection change",
  "The test of the page-wise loop copies the loop into the test instead of calling it; real writes of 12 to 20 bytes cross a page once in a few hundred functions.",
  ["internal/monkey/mem/write.go", "internal/monkey/mem/write_linux.go", "internal/monkey/mem/write_darwin.go", "internal/monkey/mem/write_windows.go", "internal/monkey/mem/write_linux_amd64.s", "internal/monkey/mem/write_linux_arm64.s", "internal/monkey/mem/write_darwin_amd64.s", "internal/monkey/mem/write_darwin_arm64.s", "internal/monkey/common/page.go", "internal/monkey/common/transform.go"],
  [("page-wise splitting", "mem.WriteWithSTW"), ("unprotect, copy, protect in assembly", "mem.write"), ("page rounding", "common.PageOf")],
  ["memory contents and protection after the write"])
p("C04", "Code only changes while the world is stopped, and it always restarts",
  "Where stopping the world is enabled, code bytes change only between one stop of the world and the matching restart, which happens on every path, also when the write fails. Between the two, nothing is done that may block, print, panic or start another goroutine, and where it is disabled the write itself still happens exactly once.",
  ["schedules", "configurations", "fault_sequences"], "every path through installing and removing code, every Go release the library has stop-the-world code for",
  "The default build of the tests compiles the stop-the-world code away, and no test makes a write fail; an unbalanced stop is a hang that appears on rare paths only.",
  ["internal/monkey/mem/write.go", "internal/monkey/common/runtime_link/stw/stw_ctx.go", "internal/monkey/common/runtime_link/stw/stw_above_1_22.go", "internal/monkey/common/runtime_link/stw/stw_1_22.go", "internal/monkey/common/runtime_link/stw/stw_1_21.go", "internal/monkey/common/runtime_link/stw/stw_below_1_21.go", "internal/monkey/common/runtime_link/stw/stw_disable.go"],
  [("stop, write, start", "mem.WriteWithSTW"), ("token passed from stop to start", "stwCtx")],
  ["runtime stop/start calls around the write"])
p("C05", "Mocks of a PatchConvey context are undone whenever it ends",
  "When a function run by PatchConvey ends, by returning, by a panic or by the goroutine exiting, every mock installed in its context and not yet removed is removed, the last one installed first, and the mocks of enclosing contexts stay in force. Every function given to PatchConvey is run as such a context, with its own arguments and results; any other item is handed on unchanged. Removing all mocks by hand removes exactly those of the innermost context.",
  ["histories", "fault_sequences", "inputs"], "every nesting of contexts, every way a context ends, every mix of function and variable mocks in it, every argument list",
  "Tests end contexts by returning and use one or two independent mocks; ends by panic or exit, overlapping mocks, and unusual argument lists are not sampled.",
  ["convey.go", "mock.go", "mock_var.go"],
  [("scope pushed before, popped in a deferred call", "PatchConvey"), ("reverse-order removal", "UnPatchAll"), ("scope bookkeeping", "addToGlobal / removeFromGlobal")],
  ["behaviour of mocked functions and variables after the context"], [("scope stack", "mocks in force per context", "convey.go: gMocker")])
p("C06", "Installing and removing a mock are idempotent and atomic per mock",
  "Installing a mock that is installed and removing one that is not changes nothing, also when done from several goroutines at once. Each effective installation patches the target once and registers the mock in the current context once, each effective removal restores it once and unregisters it from the context that holds it, so that a mock is registered if and only if it is in force.",
  ["histories", "schedules"], "every sequence of install, remove, reconfigure and release calls on a mock, in any context, and every interleaving of such calls on one mock",
  "Tests call each operation once or twice in a fixed order from one goroutine.",
  ["mock.go", "mock_var.go", "convey.go"],
  [("state flag under the lock of the mock", "(*Mocker).Patch / UnPatch, (*MockerVar).Patch / UnPatch"), ("registration", "addToGlobal / removeFromGlobal")],
  ["target behaviour, re-mock panic"], [("installed flag", "mock is in force", "mock.go, mock_var.go: isPatched")])
p("C07", "A rejected re-mock changes nothing and names the mock in force",
  "Installing a mock on a function or variable that another mock of the same context is in force for panics with the location where that mock was installed, and leaves that mock, the target and the context as they were. After that mock is removed, or in a nested context, the installation is accepted.",
  ["histories"], "every history of installations and removals of function and variable mocks over nested contexts",
  "One test re-mocks one function once and looks at the message only.",
  ["convey.go", "mock.go", "mock_var.go", "internal/tool/caller.go"],
  [("check against the innermost context before any effect", "checkGlobal"), ("location recorded at installation", "tool.OuterCaller"), ("identity of the target", "key()")],
  ["panic message, behaviour of the target after the panic"])
p("C08", "A mocked call runs the first matching branch or else the original, once",
  "A call of a mocked function tries the declared branches in the order of declaration and runs the replacement of the first one whose condition holds, a branch without condition always holding and a branch without replacement meaning the original; if none holds, the original runs. Exactly one of them runs, exactly once, with the arguments of the call, and its results are the results of the call.",
  ["inputs", "programs"], "every number and combination of branches, every outcome of the conditions, every argument list",
  "Tests sample a few one- to three-branch mocks with a handful of arguments.",
  ["mock.go", "mock_condition.go", "internal/tool/call.go"],
  [("per-branch match and execute functions", "(*Mocker).buildHook"), ("call pass-through", "tool.ReflectCall")],
  ["results and side effects of a mocked call"])
p("C09", "The goroutine filter decides by the calling goroutine alone",
  "With an include filter a call can reach a condition or replacement only when made by the chosen goroutine, with an exclude filter only when made by any other; all other calls run the original with the same arguments and results. Without a filter every call is eligible, and filters on 'the current goroutine' mean the goroutine that configures the mock.",
  ["schedules", "inputs"], "every goroutine calling a filtered mock, every filter kind and goroutine number",
  "The test samples two goroutines and a few settings.",
  ["mock.go", "internal/tool/goroutine.go"],
  [("filter switch before the branches", "(*Mocker).buildHook"), ("filter setters", "FilterGoRoutine and Include/ExcludeCurrentGoRoutine of builder and mocker")],
  ["whether a replacement runs"])
p("C10", "Call counts are exact",
  "The number of calls reported for an installed mock is the number of calls of the target made since it was installed, filtered or not, and the number of mocked calls is the number of those in which a replacement was run; counts are not lost or duplicated by concurrent calls. Both are zero again once the mock is removed.",
  ["schedules", "inputs", "histories"], "every number and interleaving of calls, every branch taken, every install/remove history",
  "Tests count a handful of sequential calls.",
  ["mock.go"],
  [("atomic counters", "access, mock, Times, MockTimes"), ("one count per call, one per replacement run", "(*Mocker).buildHook"), ("reset", "(*Mocker).UnPatch")],
  ["Times, MockTimes"])
p("C11", "Reconfiguring an installed mock replaces its behaviour as a whole",
  "Changing a condition, replacement, result, origin or filter of an installed mock takes effect for every later call: the mock is removed, the change applied, and a replacement made from the changed configuration installed. Changing condition, replacement or result of a mock with several branches is refused without any change, and releasing a mock removes it and returns its builder ready for a new declaration.",
  ["histories"], "every sequence of reconfigurations of a mock, each followed by calls",
  "Tests reconfigure a few mocks once or twice each.",
  ["mock.go", "mock_condition.go"],
  [("unpatch, change, rebuild, patch", "(*Mocker).rePatch"), ("single-branch guard", "(*Mocker).When / To / Return"), ("release", "(*Mocker).Release")],
  ["behaviour of calls after reconfiguration"])
p("C12", "Conditions and replacements get exactly the arguments they declare",
  "A user's condition or replacement is called with the arguments of the mocked call, in order and unchanged, including the receiver exactly when it declares one and the generic type information exactly when it declares that. Variadic arguments arrive as the very slice the caller passed, so an absent argument list stays nil and element writes reach the caller.",
  ["inputs", "programs"], "every target signature (receiver or not, generic or not, variadic or not, any number of parameters) and every legal form of condition and replacement",
  "Tests sample a few signatures; the sixteen combinations of generic, receiver and variadic with each hook form are not covered.",
  ["mock_condition.go", "mock.go", "internal/tool/call.go", "internal/tool/check.go"],
  [("form detection", "checkGenericAndReceiver"), ("argument adaptation", "adaptArgsForReflectCall"), ("variadic pass-through", "tool.ReflectCall")],
  ["arguments seen by user functions"])
p("C13", "Returned values are checked, converted and kept in order",
  "A call answered by declared return values yields these values in order, each converted to the result type of the target, an untyped nil giving the zero value of that type. When the number of values differs from the number of results or a value cannot be converted, the call panics instead of returning anything.",
  ["inputs", "programs"], "every result list of a target and every list of values",
  "Tests sample a few result lists; counts, nil and convertible types are not combined.",
  ["mock_condition.go", "internal/tool/check.go"],
  [("check then convert", "SetReturnForce"), ("arity and convertibility", "tool.CheckReturnType")],
  ["results of a mocked call"])
p("C14", "The origin function runs the original implementation",
  "Calling the origin function of a mock runs the code the target had before that mock, never its replacement, with the arguments given to it; a receiver or generic type information that its signature leaves out is that of the mocked call being served, also when calls are nested or concurrent. It alters neither the arguments of the mocked call nor its results, and it works wherever the stack happens to be.",
  ["inputs", "schedules", "programs"], "every target and origin signature, every number of nested or concurrent calls, every stack depth",
  "Tests call origin once, in one goroutine, on a shallow stack.",
  ["mock.go", PATCH, "internal/monkey/fn/inject.go", "internal/monkey/inst/disasm_amd64.go", "internal/monkey/inst/disasm_arm64.go"],
  [("proxy function variable filled at installation", "PatchValue, fn.InjectInto"), ("origin setter and shift", "(*Mocker).buildProxy"), ("moved instructions", "inst.Disassemble")],
  ["what the origin function executes and with which arguments"])
p("C15", "A sequence yields its values cyclically, one step per call",
  "Successive calls answered by a sequence yield its values in declaration order, each as often as declared, and start again with the first one after the last. Every call takes exactly one step, also when calls are concurrent, and a repeat count below one is rejected.",
  ["schedules", "inputs", "histories"], "every list of values and repeat counts, every number and interleaving of calls",
  "Tests run through two short sequences and one race test of two goroutines.",
  ["mock_sequence.go", "mock_condition.go"],
  [("cursor under lock", "(*sequence).GetNext"), ("builder", "Sequence, Then, Times"), ("evaluated per call", "SetReturnForce")],
  ["results of successive calls"], [("cursor", "value index and uses of it", "mock_sequence.go")])
p("C16", "A mocked variable holds the given value and gets its own value back",
  "While a variable is mocked it holds the given value, nil giving the zero value of its type, and removing the mock gives it the value it had when the mock was created, whatever type and value these are. A value that is not assignable to the variable is rejected before the variable or the mock in force changes, and giving a new value to a mocked variable takes effect.",
  ["inputs", "histories"], "every variable type and value, every sequence of value, install and remove calls",
  "Tests mock a few int, struct and pointer variables once.",
  ["mock_var.go"],
  [("origin captured at creation", "MockValue"), ("checked value, re-install", "(*MockerVar).To"), ("set and restore", "(*MockerVar).Patch / UnPatch")],
  ["value of the variable"])
p("C17", "Redeclared runtime structures agree with every supported Go release",
  "Every runtime or reflect structure, function and symbol the library redeclares or reaches by address agrees in layout, signature and name with the Go releases it is built for, so that no field is read at a wrong offset.",
  ["configurations"], "every Go release installed here (1.23 to 1.27), every supported processor and operating system, with and without the stop-the-world tag and the race detector",
  "Tests run with one release on one platform, and a wrong offset often reads a plausible value.",
  ["internal/unsafereflect/type.go", "internal/unsafereflect/name_above_1_17.go", "internal/monkey/common/transform.go", "internal/monkey/fn/inject.go", "utils.go", "mock_generics.go", "internal/monkey/common/runtime_link/stw/stw_above_1_22.go", "internal/monkey/inst/generic_extra.go", "internal/monkey/inst/generic_extra_race.go"],
  [("mirrored structs", "rtype, uncommonType, method, funcType, ptrType, interfaceType, structType, worldStop, value/function words"), ("linknames", "//go:linkname directives")],
  ["resolved private methods, stop-the-world tokens"])
p("C18", "The goroutine number is the runtime's own",
  "The goroutine number the library reports is the one the runtime gave to the calling goroutine, on every supported Go release and processor.",
  ["configurations", "schedules"], "every goroutine, every Go release installed here (1.23 to 1.27), amd64 and arm64",
  "One test compares one goroutine on one release.",
  ["internal/tool/goroutine.go", "internal/tool/goroutine_amd64.s", "internal/tool/goroutine_arm64.s", "utils.go"],
  [("release-dependent offset", "init in goroutine.go"), ("current g", "getG")],
  ["GetGoroutineId, goroutine filters"])
p("C19", "Method lookup finds the method of that very name or fails",
  "Looking up a method on an instance returns the function of exactly that name, taking the receiver as its first parameter, or the function stored in a function-typed field of that name; a lookup that finds nothing panics and never returns a function of another name. Methods of embedded values are found at any depth, a nil embedded value being skipped.",
  ["inputs", "programs"], "every instance (struct, pointer, interface, nil and non-nil embedded values) and every name",
  "Tests look up about a dozen names on a handful of types.",
  ["utils.go", "internal/unsafereflect/type.go", "internal/unsafereflect/name_above_1_17.go"],
  [("lookup order and guards", "GetMethod, GetNestedMethod, GetPrivateMethod"), ("recursive embedded lookup", "getNestedMethod"), ("name comparison over the method table", "unsafereflect.MethodByName"), ("receiver prepended", "unsafeMethodByName")],
  ["function returned by the lookup"])
p("C20", "A rejected mock changes nothing",
  "When a mock cannot be made, because the target is no function, a signature does not match, the function is too short (unless unsafe mocking was asked for) or its first instructions cannot be decoded where their lengths have to be known, the request panics before any code byte, variable, context or previously installed mock is changed. Once code has been changed, nothing but a failed memory operation can make the installation fail.",
  ["inputs", "fault_sequences"], "every invalid target, option, condition, replacement and origin",
  "Tests look at the panic of a few invalid requests, not at what happened before it.",
  ["mock.go", "mock_var.go", "convey.go", PATCH, "internal/monkey/fn/inject.go", "internal/monkey/inst/disasm_amd64.go", "internal/monkey/inst/disasm_arm64.go", "internal/tool/assert.go"],
  [("validation before effects", "Mock, Build, Patch, PatchValue"), ("assertion", "tool.Assert"), ("length check", "inst.Disassemble")],
  ["target behaviour after the panic"])
p("C21", "A generic mock patches the body its instantiation calls",
  "Mocking an instantiated generic function or method patches the one function body that the instantiation's wrapper calls, forwards or backwards and however far away in the text segment, and calls the compiler adds for copying, zeroing and race detection are never taken for it. If there is not exactly one such call the request is rejected.",
  ["inputs", "programs", "configurations"], "every instantiation, every signed 32-bit (amd64) or 26-bit (arm64) call distance, with and without the race detector",
  "Tests instantiate a few functions; call direction and distance are what the linker happens to produce, and helper calls appear for large arguments and under -race only.",
  ["internal/monkey/inst/disasm_amd64.go", "internal/monkey/inst/disasm_arm64.go", "internal/monkey/inst/generic_extra.go", "internal/monkey/inst/generic_extra_race.go", PATCH, "mock_generics.go", "option.go"],
  [("scan for the call", "inst.GetGenericJumpAddr"), ("address computation", "calcAddr"), ("helper exclusion", "isGenericProxyCallExtra"), ("type information", "GenericInfo.UsedParamType")],
  ["which function is patched"])
p("C22", "Debug output has no effect on behaviour",
  "Turning debug mode on changes what is printed and nothing else: no state, no result, no order of effects and no failure depends on it.",
  ["configurations", "inputs"], "every operation with debug mode on and off",
  "Tests run with debug mode off.",
  ["internal/tool/debug.go", "internal/tool/caller.go", "convey.go", PATCH, "internal/monkey/mem/write.go", "internal/monkey/inst/disasm_amd64.go", "internal/monkey/inst/disasm_arm64.go"],
  [("printing only behind the flag", "tool.DebugPrintf"), ("call sites pass pure arguments", "all callers of DebugPrintf / IsDebug")],
  ["everything but standard output"])
p("C23", "The memory of the moved original is never writable and executable at once",
  "The memory holding the moved part of an original is filled while it is writable and not executable, made executable and not writable on Linux and macOS before any function refers to it, and not written again. It is released exactly once, as the whole that was allocated, and only after the target has been restored.",
  ["histories", "fault_sequences", "configurations"], "every install and remove sequence, every outcome of the memory operations",
  "Tests see that mocks work, not which protection memory has in between nor whether it is released.",
  [PATCH, "internal/monkey/fn/inject.go", "internal/monkey/common/page.go", "internal/monkey/common/page_alloc.go", "internal/monkey/common/page_alloc_windows.go", "internal/monkey/mem/prot/protect.go", "internal/monkey/mem/prot/protect_linux.go", "internal/monkey/mem/prot/protect_darwin.go", "internal/monkey/mem/prot/protect_windows.go"],
  [("allocate read/write", "common.AllocatePage"), ("read/execute before injection", "fn.InjectInto, prot.MProtectRX"), ("release after restore", "(*Patch).Unpatch, common.ReleasePage")],
  ["memory protections, mappings left behind"])
p("C24", "Only matching conditions, replacements and origins are accepted",
  "A replacement or origin is accepted only when its parameter types are the target's, optionally without the receiver, optionally after the generic type information for generic targets, and variadic exactly when the target is; a condition in addition must have exactly one result, which is boolean. Everything else is rejected when it is declared or at the latest when the mock is built.",
  ["inputs", "programs"], "every pair of target type and function type",
  "Tests reject a few mismatching types.",
  ["mock_condition.go", "mock.go", "internal/tool/check.go", "internal/tool/assert.go"],
  [("parameter comparison", "tool.CheckFuncArgs"), ("form detection", "checkGenericAndReceiver, missReceiver"), ("condition result", "SetWhenForce")],
  ["panic of the declaration"])
p("C25", "Declarations build the branches they spell out",
  "Conditions and replacements declared in a chain pair up in declaration order: each goes to the branch being declared until that has both, after which a new branch starts. Declaring a second condition, replacement or origin where one is already pending is rejected, and options given to a mock (unsafe, generic) hold for that mock and no other.",
  ["inputs", "programs"], "every chain of condition, replacement, result and origin declarations",
  "Tests use the common order with up to three branches.",
  ["mock.go", "mock_condition.go", "option.go"],
  [("branch under construction", "lastCondition, Complete"), ("re-set guards", "SetWhen, SetTo, SetReturn, Origin"), ("options", "resolveOpt, Mock")],
  ["dispatch of the built mock"])
p("C26", "A mock's reported location is the user's call outside the library",
  "The location recorded for a mock is the innermost call site outside the library's own package at the time of installation, as file and line; when it cannot be determined a placeholder is recorded and the installation goes on.",
  ["inputs", "programs"], "every call path through which a mock is installed",
  "One test compares one line number.",
  ["internal/tool/caller.go", "mock.go", "mock_var.go"],
  [("first frame of another package", "tool.OuterCaller"), ("recorded at installation", "(*Mocker).Patch, (*MockerVar).Patch")],
  ["re-mock panic message"])
p("C27", "Calls in progress survive the removal of a mock",
  "A call that entered the mock before it was removed can still finish, including running the original, without touching released memory.",
  ["schedules"], "every interleaving of calls through a mock with its removal",
  "Tests remove mocks when no call is in progress.",
  [PATCH, "mock.go"],
  [("release of the moved original", "(*Patch).Unpatch"), ("use of it by calls", "originExec, origin setter")],
  ["crash of a call in progress"])
p("C28", "Failures of memory operations are never ignored",
  "When allocating, protecting, writing or releasing code memory fails, the failure is noticed and reported to the caller as a panic; no later step is carried out as if it had succeeded.",
  ["fault_sequences", "configurations"], "every memory operation failing, on every supported operating system",
  "No test makes a memory operation fail.",
  ["internal/monkey/mem/write.go", "internal/monkey/mem/write_linux.go", "internal/monkey/mem/write_darwin.go", "internal/monkey/mem/write_windows.go", "internal/monkey/mem/prot/protect.go", "internal/monkey/common/page.go", "internal/monkey/common/page_alloc.go", "internal/monkey/common/page_alloc_windows.go", "internal/monkey/fn/inject.go"],
  [("error results checked", "every call of a fallible memory operation"), ("status propagated by the assembly", "mem.write")],
  ["panic of the operation"])
p("C29", "What an installed mock jumps to stays alive",
  "As long as a mock is in force, the replacement function, the proxy to the original and the moved code that the patched function refers to by bare address are reachable for the garbage collector through the registry of mocks and are not replaced.",
  ["schedules", "histories"], "every garbage collection during the life of a mock, every history of the mock",
  "Collections at the critical moment are not provoked, and memory is rarely reused at once.",
  ["mock.go", "convey.go", PATCH],
  [("mock kept in the context registry while installed", "addToGlobal / removeFromGlobal"), ("replacement and proxy kept in the mock", "Mocker.hook, Mocker.proxy, Mocker.patch")],
  ["calls of a mocked function after garbage collections"])
p("C30", "Platform variants implement the same operations",
  "For every supported operating system, processor, Go release and build tag the library type-checks, every function without a body has an assembly implementation using the parameter and result layout Go expects, and the variants of one operation agree in signature and in what they do on success and failure.",
  ["configurations"], "linux/amd64, linux/arm64, darwin/amd64, darwin/arm64, windows/amd64; race; stop-the-world tag; Go releases with separate sources",
  "Tests build and run one configuration.",
  ["internal/monkey/mem/write_linux_amd64.s", "internal/monkey/mem/write_linux_arm64.s", "internal/monkey/mem/write_darwin_amd64.s", "internal/monkey/mem/write_darwin_arm64.s", "internal/tool/goroutine_amd64.s", "internal/tool/goroutine_arm64.s", "internal/monkey/common/runtime_link/stw/stw_ctx.go"],
  [("build-constrained files", "*_linux*, *_darwin*, *_windows*, stw_*, name_*, generic_extra_race")],
  ["compilation and behaviour on the other platforms"])
p("C31", "No thread runs a half-written instruction sequence",
  "While the entry of a function is being overwritten or restored, a thread that is executing or about to execute that function runs either the old or the new instructions, never a mixture.",
  ["schedules"], "every interleaving of an install or remove with calls of the target on other threads",
  "Needs a thread inside the overwritten bytes at the moment of the write.",
  ["internal/monkey/mem/write.go"],
  [("optional stop of the world", "stw")],
  ["crash of a concurrent caller"])
p("C32", "The start-up check notices missing compiler flags",
  "The warning printed at start-up appears exactly when the program was compiled with inlining enabled, so that silent non-mocking does not go unnoticed.",
  ["configurations"], "every combination of compiler flags and Go releases",
  "Tests run with one set of flags.",
  ["internal/tool/check_gcflags.go", "internal/tool/check_gcflags_amd64.go", "internal/tool/check_gcflags_arm64.go"],
  [("self-inspection of a calling function", "IsGCFlagsSet")],
  ["warning on standard error"])
p("C33", "Generic type information identifies the instantiation",
  "The generic type information that conditions and replacements of a generic mock receive is what the compiler passes for the instantiation called: two of them compare equal exactly when they are the same, and the n-th type asked for is the type the n-th entry describes. It arrives in the place declared for it, whether the target is a function or a method.",
  ["inputs", "programs"], "every generic function and method of a generic type, every instantiation, every n within range, every signature declaring the information or leaving it out",
  "Tests look at the information of one function with six type parameters; methods, and signatures that take both information and receiver, are never run.",
  ["mock_generics.go", "mock.go", "mock_condition.go"],
  [("information as a typed word, types read from the dictionary", "GenericInfo.Equal, GenericInfo.UsedParamType"), ("position among the arguments", "(*MockBuilder).hookType, (*mockCondition).adaptArgsForReflectCall")],
  ["types and equality seen by a replacement that declares the information"])
p("C34", "Concurrent calls of mocks do not race with each other",
  "Any number of goroutines may call a mocked function at the same time while the mock is left as it is. A call writes only memory of its own; what calls have in common, such as counters and the position in a sequence, is accessed atomically or under one lock.",
  ["schedules"], "every interleaving of any number of calls of mocked functions, for every configuration of the mock",
  "Tests call a mock from one goroutine, or from a few without the race detector, and a lost update or a torn list needs an unlucky interleaving.",
  ["mock.go", "mock_condition.go", "mock_sequence.go"],
  [("counters changed by atomic operations", "(*Mocker).access, (*Mocker).mock"), ("position of a sequence under its lock", "(*sequence).GetNext"), ("no other state changed by a call", "(*Mocker).buildHook, (*mockCondition).SetReturnForce")],
  ["race reports, lost counts and mixed-up results under concurrent calls"])
p("C35", "Nothing is printed unless debug mode is on",
  "Once the program has started, the library prints nothing unless debug mode is on, whichever mocks are made, called, changed or removed and whatever goes wrong with them. Debug mode is on exactly when the environment variable MOCKEY_DEBUG is \"true\" when the program starts; nothing the library does later turns it on or off.",
  ["inputs", "configurations"], "every value of the environment variable, every path of every function of the library that may print or be called by one that does not",
  "Tests do not look at what is printed, and the places that report something unusual are hardly ever run.",
  ["internal/tool/debug.go", "internal/tool/caller.go", "mock.go", "convey.go", "internal/monkey/patch.go"],
  [("one switch set at start-up", "debugFlag, IsDebug"), ("one function that prints", "DebugPrintf")],
  ["standard output and standard error of the test program"])
p("C36", "Panics in the user's functions reach the caller unchanged",
  "When a condition, a replacement, the original function or a function given to PatchConvey panics or ends its goroutine, that goes on, with its own value and on the goroutine it happened on, to the caller of the mocked function or of the function given to PatchConvey: the library neither swallows it nor turns it into another one, and calls no other function of the user because of it.",
  ["inputs", "faults"], "every panic value and runtime.Goexit, in every function of the user the library calls, for every configuration of the mock",
  "Tests let a replacement or PatchConvey body panic in a handful of cases, always with a plain value and one branch.",
  ["mock.go", "mock_condition.go", "mock_generics.go", "convey.go", "internal/tool/call.go"],
  [("functions called without recovering", "(*Mocker).buildHook, (*mockCondition).SetToForce, (*mockCondition).SetWhenForce"), ("contexts left without recovering", "PatchConvey, doPatch")],
  ["the panic value seen by the caller"])
p("C37", "The library never waits for itself",
  "Every lock the library takes is released on every way out of the function that took it, also by panic; it is never asked for again by the goroutine that holds it; it is not held while code of the user runs; and locks are nested in one order. Hence no call of the library waits for ever, unless the user's own code does.",
  ["schedules", "histories"], "every path of every function of the library, every history of operations, every interleaving",
  "A lock left held on an error path, or held while a replacement runs, shows up only when that path is followed by a second operation, or when the replacement uses the library or another mock.",
  ["mock.go", "mock_var.go", "mock_sequence.go", "convey.go"],
  [("short critical sections", "(*Mocker).Patch, (*Mocker).UnPatch, (*sequence).GetNext"), ("reconfiguration unpatches, then locks", "(*Mocker).rePatch")],
  ["operations that never return"])
with open(OUT, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
