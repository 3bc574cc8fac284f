PEER = "Sampled, not exhaustive. The C side is compiled from the header the library generates in that very run, by gcc and by g++, and called in-process, with the simulator choosing which thread of which side runs at each crossing. Both a debug and a release build. Trusted: gcc 13, rustc 1.72.1, the peer programs' own expectations; x86-64 Linux only."
HDR = "Sampled, not exhaustive. Headers are read back by this check's own readers of C, C#, and Python declarations; what they cannot read is reported. The layouts come from rustc by offset_of on x86-64 Linux. The Python output is checked for what it declares, not executed."
# ---- the foreign side
prop("L01", "C programs using the generated header agree with the library",
  "A C or C++ program compiled against the generated header gets what the Rust side gives it and gives what the Rust side gets: every argument, result, struct, array, enum, union of kinds, string, slice, closure, virtual object and constant (numbers, booleans and text) that crosses has the same size, layout, value and identity on both sides, in both directions, nested and from any thread. The header compiles on its own, in C and in C++, and what it declares links.",
  ["inputs", "histories", "schedules"], "Every value of every exported shape of type, in every sequence of calls and calls back, on any number of threads of either side.",
  "The tests run a C program that prints a fixed story, on one thread, over a few types.",
  ["src/layout/_mod.rs", "src/layout/impls.rs", "src/headers/languages/c.rs", "src/proc_macro/ffi_export/fn_/_mod.rs", "src/proc_macro/derives/_mod.rs"],
  [("CType/ReprC and their derives", "src/layout/_mod.rs"), ("C definitions", "src/headers/languages/c.rs"), ("exported functions", "src/proc_macro/ffi_export/fn_/_mod.rs")],
  ["what the C program reads, returns and is called with", "the C compilers' verdict on the header"], note=PEER)
prop("H01", "Header generation passes on every failure of its output",
  "When generating a header fails to write its output, at whatever byte and in whatever way, the error reaches the caller. When it reports success, everything was written, in the order generated, and in the file or writer it was given: success is never reported for a header that is incomplete. A failed generation leaves the generator usable: the next one gives the same header as ever.",
  ["fault_sequences", "crash_points"], "Every byte at which a write, a flush or the opening of a file fails, is short or is interrupted, for every language and writer.",
  "The tests write to files that never fail.",
  ["src/headers/_mod.rs", "src/headers/definer.rs", "src/headers/languages/c.rs"], [("Builder::generate", "src/headers/_mod.rs"), ("Definer::out", "src/headers/definer.rs")],
  ["Builder::generate's result", "the output"], note=HDR)
prop("H02", "Generated headers are the same every time",
  "The same library and the same options give the same header, byte for byte, however often it is generated, whatever was generated before, failed before, or is being generated at the same time on other threads, and in whatever order the linker registered the exported items (unless a header in that order is asked for, which then has the same lines in another order). Options (banner, guard, naming convention, language, stability, text before and after) have their effect on that one header, and on nothing else of it.",
  ["histories", "schedules", "fault_sequences"], "Every sequence and interleaving of generations, with every combination of options and every link order, some of them failing half-way.",
  "The tests generate each header once.",
  ["src/headers/_mod.rs", "src/headers/definer.rs"], [("Builder and its options", "src/headers/_mod.rs"), ("the registry of exported items", "src/headers/_mod.rs")],
  ["the output"], note=HDR)
prop("H03", "Headers define every item once, before its use, as it is in Rust",
  "A generated header declares every exported function, constant and type, defines every type it mentions before that mention, and defines nothing twice, in whatever order items are visited and whichever names the definer already claims as defined. What it declares agrees with the Rust side in sizes, alignments, offsets, variants, parameters and results, and in the names and the documentation of functions, parameters, fields and variants, and headers for different languages of the same library agree with each other. Items are left out only where the definer says they are already defined.",
  ["inputs", "histories"], "Every set of names already defined, order of visits, option and language.",
  "The tests compare a few headers to golden files that nobody checks against the layouts.",
  ["src/headers/languages/c.rs", "src/headers/languages/csharp.rs", "src/headers/languages/python.rs", "src/headers/definer.rs", "src/layout/_mod.rs", "src/layout/impls.rs"],
  [("definitions per language", "src/headers/languages/_mod.rs"), ("define_self", "src/layout/_mod.rs"), ("Definer::insert and define_once", "src/headers/definer.rs")],
  ["the declarations of the output, and size_of, align_of and offsets in Rust"], note=HDR)
prop("D01", "Types that cannot cross the boundary soundly are rejected by the compiler",
  "A type, function or trait that cannot cross the boundary with a defined layout is rejected when it is compiled, and everything documented as supported compiles.",
  ["programs"], "Every program using the macros.", "A test samples a few programs.",
  ["src/proc_macro/_mod.rs", "src/layout/_mod.rs"], [("derives", "src/proc_macro/derives/_mod.rs")],
  na="decided by the compiler on program text alone: nothing runs, so there is no schedule, time, I/O or fault to simulate")
prop("J01", "JavaScript bindings convert values and report errors as the C ones do",
  "Values, errors and closures that cross to JavaScript arrive as they would in C, and are released when collected.",
  ["inputs", "schedules"], "Every value and collection order of the JavaScript engine.", "A test samples a few calls.",
  ["src/js/_mod.rs", "src/js/impls.rs", "src/js/closures/node_js.rs"], [("js conversions", "src/js/_mod.rs")],
  na="the bindings need the napi or wasm dependencies, which are not installed here, so this code cannot be built; and its scheduler is the JavaScript engine's, behind no seam")
prop("X01", "A panic in an exported function ends the process there, and is reported",
  "A panic inside an exported function, wherever it starts (its body, its arguments' checks or destructors, its asynchronous part) never reaches the code that called it: the process ends there, without running anything more of the caller, and the standard error, if it works, names the function. A function that copes with its own panics, or returns normally while another panic is under way, is not affected.",
  ["crash_points", "fault_sequences", "inputs"], "Every kind and place of panic, caller (C++ that catches exceptions, Rust that catches panics, other threads, callbacks, destructors) and state of the standard error.",
  "A process that has to die cannot be observed by a test inside it, and no test starts one to see it die.",
  ["src/_lib.rs", "src/proc_macro/ffi_export/fn_/mod.rs", "src/proc_macro/ffi_export/fn_/async_fn.rs"],
  [("UnwindGuard", "src/_lib.rs"), ("its place in exported functions", "src/proc_macro/ffi_export/fn_/mod.rs")],
  ["how the process ends, and what it says until then"], note="Sampled, not exhaustive. Each case is a process of its own, one decision sequence without further threads racing; debug and release builds with unwinding panics, on Linux.")
prop("X02", "Corrupted values from foreign code are recognised, and valid ones let in",
  "A value whose bytes are no value of its Rust type is recognised when it comes in, however deep in it the wrong part lies: a boolean other than 0 and 1, an enumeration's undeclared number, a null or misaligned reference, box or slice, a null function where none may be missing. Values that are valid are never refused, and come in and go out again byte for byte, whatever is in their padding. Builds with debug assertions stop an invalid value at the boundary.",
  ["inputs", "fault_sequences"], "Every type the boundary knows, every combination of corrupted, swapped, torn or zeroed bytes in its C layout.",
  "The tests hand over valid values.",
  ["src/layout/_mod.rs", "src/layout/impls.rs", "src/layout/niche.rs", "src/option.rs", "src/proc_macro/derives/repr_c/struct_.rs", "src/proc_macro/derives/repr_c/enum_.rs"],
  [("ReprC::is_valid and the derives", "src/layout/impls.rs"), ("from_raw, from_raw_unchecked", "src/layout/_mod.rs"), ("niches", "src/layout/niche.rs")],
  ["layout::from_raw", "ReprC::is_valid", "layout::into_raw"], note="Sampled, not exhaustive. An independent model of about 100 types; text is not checked for UTF-8, nor pointers for what they point to, as the library does not. A plain Out parameter's null is left open (documented as allowed to pass). Debug and release builds.")
