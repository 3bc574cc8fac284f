#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Run after editing: python3 doc/properties.py"""
import json, os, sys
TECH = "deterministic simulation: seeded search over schedules and injected faults"
P, CHECKS, NA = [], [], []

def prop(id, title, statement, over, quant, why, files, mech, observe=(), technique=None, note=None, na=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})
    if na:
        NA.append({"property": id, "reason": na})
    else:
        CHECKS.append({"property": id, "quick_cmd": f"./check {id} quick", "thorough_cmd": f"./check {id} thorough",
                       "evidence_file": f"evidence/{id}.json", "technique": technique or TECH,
                       "level": "exploration", "level_note": note})

SIM = "Sampled, not exhaustive: every run is one seed of a search over operation sequences, thread interleavings (down to single machine instructions in a part of the runs), and faults; both a debug and a release build. Trusted: the simulator's own models, the tracking allocator, rustc 1.72.1. Memory is checked through canaries, poisoning and block accounting, and not by an instrumented compiler; weak memory orderings are not simulated."

# ---- byte strings
prop("B01", "Byte strings always read as the bytes they stand for",
  "A byte string always reads as exactly the bytes it was made from, whatever kind of storage is behind it (static, borrowed, inline, shared, foreign with its own retain and release) and however it has been sliced, split, cloned, upgraded, moved or sent to another thread since. Slicing or splitting at a range that does not fit is refused and leaves the byte string as it was. Equality, ordering and hashing are those of the bytes.",
  ["inputs", "histories", "schedules"], "Every content, length around the inline and allocation thresholds, range (also overflowing ones), storage, sequence of operations and interleaving of threads holding handles of the same storage.",
  "The tests use a few fixed strings and one operation each on one thread; content after long mixed histories and under concurrent clones and drops is never looked at.",
  ["src/bytes.rs"], [("shrink_to/split_at and their range checks", "src/bytes.rs"), ("inline representation", "src/bytes.rs"), ("vtable per storage", "src/bytes.rs")],
  ["Bytes::as_slice", "Bytes::shrink_to", "Bytes::split_at", "PartialEq/Ord/Hash"], note=SIM)
prop("B02", "Byte storage is released exactly once, after its last reader",
  "The storage behind byte strings is released exactly once, with the function that belongs to it, and not before the last byte string that reads it is gone. This holds for storage that Rust allocated, for storage shared by an atomic reference count, and for storage a foreign program counts itself, in every order of clones, splits and drops on any number of threads. Nothing is leaked and nothing is released that was only borrowed.",
  ["histories", "schedules", "fault_sequences"], "Every sequence of clone, split, shrink, upgrade, convert and drop over all storages, in every interleaving, with foreign retain and release functions that are slow, missing, or return another owner.",
  "Unit tests drop a handful of values on one thread and have no view of how often or when a release ran.",
  ["src/bytes.rs"], [("Drop for Bytes", "src/bytes.rs"), ("Clone for Bytes", "src/bytes.rs"), ("retain and release of the vtable", "src/bytes.rs")],
  ["the storage's retain and release calls", "the allocator"], note=SIM)
prop("B03", "An upgraded byte string survives its lender",
  "A byte string that was upgraded to an unrestricted lifetime stays readable with the same bytes after everything it was borrowed from has been changed, freed or overwritten. An upgrade that cannot promise this without allocating is refused, and hands the byte string back unchanged.",
  ["inputs", "histories", "schedules"], "Every storage and length, every chain of slices, clones and upgrades, and every moment at which the lender takes its buffer back.",
  "The tests never take the borrowed buffer away, so a string that kept pointing into it reads correctly there.",
  ["src/bytes.rs"], [("upgrade and noalloc_upgrade", "src/bytes.rs"), ("copying of unretainable storage", "src/bytes.rs")],
  ["Bytes::upgrade", "Bytes::noalloc_upgrade"], note=SIM)
prop("B04", "Allocation promises of byte strings are kept",
  "Where a byte string says that a clone or an upgrade will not allocate, it does not; where it says it will, it does. The operations documented as not allocating never allocate, and give a value or refuse as documented. Byte strings at most as long as the inline capacity are made without allocating.",
  ["inputs", "histories"], "Every storage, length (all around the inline threshold) and history of slices before the question is asked.",
  "The tests do not observe the allocator and check the answers for a few lengths only.",
  ["src/bytes.rs"], [("upgrade_will_allocate, clone_will_allocate", "src/bytes.rs"), ("noalloc_clone, noalloc_upgrade", "src/bytes.rs")],
  ["the global allocator", "Bytes::clone_will_allocate"], note=SIM)
prop("B05", "Reading a byte string as a stream loses and repeats nothing",
  "Read as a stream in any mixture of read sizes and ways, a byte string gives every byte once, in order, then end of stream; what has been read is what it loses from its front. A read that fails for want of bytes or because its sink fails loses nothing beyond what was delivered, and never writes outside the reader's buffer.",
  ["inputs", "histories", "fault_sequences"], "Every content, storage and sequence of reads of all kinds, with sinks that take short, interrupt and fail at any byte.",
  "No test reads through a sink that fails or mixes ways of reading.",
  ["src/bytes.rs"], [("io::Read for Bytes", "src/bytes.rs"), ("shrink_to", "src/bytes.rs")], ["io::Read"], note=SIM)
prop("B06", "Deserialising bytes survives broken and lying streams",
  "A byte string that is serialised and deserialised again reads the same, from every data format's way of delivering bytes: transient, borrowed, owned or element by element. A stream that breaks off, delivers something other than bytes, or lies about its length gives an error or exactly the bytes that came, with memory in proportion to what came, and nothing leaks. What is deserialised from a transient buffer does not refer to it.",
  ["inputs", "fault_sequences"], "Every content, way of delivery, false length announcement and point and kind of failure.",
  "The tests round-trip one value through one format that neither fails nor lies.",
  ["src/bytes.rs"], [("Serialize and Deserialize for Bytes", "src/bytes.rs"), ("the visitor", "src/bytes.rs")], ["serde::Deserialize", "the allocator"], note=SIM)
prop("B07", "Conversions to shared slices keep content and counts",
  "Turning shared slices, vectors, boxed slices and strings into byte strings and back keeps the content, and gives back the very allocation where the byte string was the only or a full view of it and this is promised. Reference counts come out as the number of handles that exist, whatever thread converted, cloned or dropped in between.",
  ["inputs", "histories", "schedules"], "Every content, storage, sub-range and interleaving of conversions with clones and drops on other threads.",
  "The tests check content of single conversions; counts and allocation identity under concurrent use are not observed.",
  ["src/bytes.rs"], [("From and TryFrom between Bytes, Arc<[u8]>, Vec, Box, String", "src/bytes.rs")], ["Arc::strong_count", "Arc::ptr_eq"], note=SIM)
# ---- closures
prop("C01", "An owned closure runs its own environment and frees it exactly once",
  "Calling an owned closure that crossed the boundary runs the code it was made from, on its own environment, with the arguments in order and its result returned, any number of times. Its environment is destroyed exactly once, when its owner drops it, on whatever thread that is and whoever (Rust or foreign code) made it. A closure without a function to call or release refuses instead of being called.",
  ["inputs", "histories", "schedules", "fault_sequences"], "Every arity, environment (also zero-sized and over-aligned), sequence of calls, moves across the boundary and drops, nested calls, and foreign closures with missing functions.",
  "The tests call one closure of small arity once, on one thread, and do not count destructions.",
  ["src/closure/boxed.rs", "src/closure/mod.rs"], [("BoxDynFn* call and Drop", "src/closure/boxed.rs")], ["call", "the environment's destructor", "the foreign free function"], note=SIM)
prop("C02", "A shared closure lives until its last handle is released",
  "All handles of a shared closure run the same environment; it is destroyed exactly once, when the last handle, whether held by Rust or by foreign code that counts through the functions it was given, is released. Cloning adds one owner and dropping removes one, on any thread; turning a handle into something else that owns keeps the count. A closure without a retain function refuses to be cloned and its count is unchanged.",
  ["histories", "schedules", "fault_sequences"], "Every interleaving of call, clone, retain, release and drop by Rust threads and a foreign peer, every arity, every environment, also with missing functions.",
  "The tests clone and drop on one thread; premature destruction or a leaked count is invisible there.",
  ["src/closure/arc.rs", "src/closure/mod.rs"], [("ArcDynFn* Clone, Drop, call", "src/closure/arc.rs")], ["call", "the environment's destructor", "foreign retain and release"], note=SIM)
prop("C03", "A borrowed closure runs its lender's closure and never frees it",
  "Calling a borrowed closure runs the lender's closure with its arguments in order and returns its result; changes it makes to its environment are seen by the lender. Copying, sending and dropping a borrowed closure neither destroys nor copies the lender's environment.",
  ["inputs", "histories", "schedules"], "Every arity, environment and sequence of lending, copying, reborrowing, calling (also nested) and returning.",
  "The tests lend one closure and call it once.",
  ["src/closure/borrowed.rs", "src/closure/mod.rs"], [("RefDynFnMut* and call", "src/closure/borrowed.rs")], ["call", "the lender's environment"], note=SIM)
# ---- virtual pointers
prop("V01", "A virtual pointer releases its object as the pointer it came from would",
  "A virtual pointer destroys and frees its object exactly once, the way the pointer it was made from would: an owning one with its last owner, a borrowing one never. This holds for every kind of pointer it can be made from, also pinned ones, for objects of a foreign program, and however it was moved, wrapped, reborrowed, or sent.",
  ["histories", "schedules", "programs"], "Every kind of pointer and object (zero-sized, over-aligned, foreign), every sequence of conversion, clone, reborrow and drop, in every interleaving of threads.",
  "The tests make one virtual pointer of two kinds and call one method; release is not observed.",
  ["src/dyn_traits/_mod.rs", "src/dyn_traits/dyn_drop.rs", "src/proc_macro/derives/dyn_trait/coercions.rs", "src/proc_macro/derives/dyn_trait/receiver_types.rs"],
  [("VirtualPtr and its Drop", "src/dyn_traits/_mod.rs"), ("coercions generated per pointer kind", "src/proc_macro/derives/dyn_trait/coercions.rs")],
  ["the object's destructor", "the allocator", "the foreign release function"], note=SIM)
prop("V02", "A virtual call runs that object's method, with its arguments and effects",
  "Calling a method through a virtual pointer runs the method of the object it was made from, with its arguments in order, returns its result, and makes its effects on the object visible to the next caller. This holds for shared, exclusive, pinned and by-value receivers, for inherited, generic and default methods, for objects of a foreign program, and for every kind of pointer.",
  ["inputs", "programs", "schedules"], "Every receiver kind, argument list, pointer kind and sequence of calls by several threads to several objects.",
  "The tests call one method with fixed values on one object.",
  ["src/proc_macro/derives/dyn_trait/vtable_entry.rs", "src/proc_macro/derives/dyn_trait/_mod.rs", "src/dyn_traits/_mod.rs"],
  [("generated vtables and trait implementations", "src/proc_macro/derives/dyn_trait/_mod.rs"), ("method shims", "src/proc_macro/derives/dyn_trait/vtable_entry.rs")],
  ["trait methods of a VirtualPtr"], note=SIM)
prop("V03", "Cloning a virtual pointer copies what is owned and shares what is shared",
  "Cloning a virtual pointer made from a box copies the object, so that the two are independent from then on; cloning one made from a shared pointer or a shared reference gives another handle to the same object and adds one owner where there are owners. Each is released exactly once.",
  ["histories", "schedules"], "Every kind of clonable pointer, object and interleaving of clones, calls and drops.",
  "No test clones a virtual pointer and then changes or drops either.",
  ["src/dyn_traits/_mod.rs", "src/proc_macro/derives/dyn_trait/coercions.rs"], [("Clone for VirtualPtr", "src/dyn_traits/_mod.rs"), ("retain entries of vtables", "src/proc_macro/derives/dyn_trait/coercions.rs")],
  ["Clone", "the object's destructor"], note=SIM)
# ---- executors
prop("F01", "Spawned and awaited work completes exactly once with its own result",
  "Work handed to a foreign executor (spawned, blocking, or blocked upon) runs to completion exactly once, and whoever awaits it gets that work's own result, once, under every order in which the executor polls and every spurious or late wake-up. No wake-up is lost, nothing is polled again after it completed or by two threads at once, and every future, result and executor handle is destroyed exactly once. Work whose handle is thrown away runs on.",
  ["schedules", "histories", "fault_sequences"], "Every order of polls, wakes, timers and completions, nesting of spawns, detaching and giving up, with spurious polls and wakes.",
  "The tests await a few futures on a real runtime whose schedule they do not control.",
  ["src/dyn_traits/futures/executor.rs", "src/dyn_traits/futures/_mod.rs", "src/proc_macro/ffi_export/fn_/async_fn.rs"],
  [("spawn, spawn_blocking, block_on over a virtual executor", "src/dyn_traits/futures/executor.rs"), ("FfiFuture and its poll", "src/dyn_traits/futures/_mod.rs")],
  ["JoinHandle", "block_on", "the executor's polls"], note=SIM)
prop("F02", "Work that its executor drops is reported to its awaiter",
  "When an executor drops a task or shuts down before the task has completed, whoever awaits the task is told so in bounded steps and is never left waiting or given a made-up result; the task's future and everything in it is destroyed exactly once. Other tasks of the same executor are unaffected by the loss of one, and a task that did complete still hands over its result.",
  ["schedules", "crash_points", "fault_sequences"], "Every step at which a task is dropped or the executor shuts down, in every schedule of the rest.",
  "No test drops a task or an executor with work pending.",
  ["src/dyn_traits/futures/executor.rs"], [("result channel of spawn, spawn_blocking", "src/dyn_traits/futures/executor.rs")],
  ["JoinHandle", "destructors of futures"], note=SIM)
prop("F03", "Wakers handed to foreign code wake their task only, and are not leaked",
  "A waker obtained by foreign code from a task's context wakes that task and no other, any number of times and from any thread, as long as the foreign code holds it. Cloning it adds one owner, releasing it removes one, and the task's own waker is released exactly when the last is gone.",
  ["schedules", "histories"], "Every interleaving of obtaining, waking, cloning and releasing wakers of several tasks on several threads.",
  "No test uses these functions.",
  ["src/dyn_traits/futures/_mod.rs", "src/closure/arc.rs"], [("ffi_export_future_helpers!", "src/dyn_traits/futures/_mod.rs")],
  ["the task's waker: clones, wakes, drops"], note=SIM)
prop("F04", "A tokio runtime behind the executor interface runs work to completion, once",
  "A tokio runtime handed over as an executor runs spawned, blocking and blocked-upon work to completion exactly once and returns each its own result, and code run inside sees the runtime as entered exactly for as long as it should; code that asks to run within a tokio reactor finds one on any executor that has been given a runtime. When the runtime goes while work is pending, or refuses work because it has gone, that work is dropped once and its awaiters are told.",
  ["schedules", "crash_points"], "Every order of spawning, awaiting and shutting down that a current-thread runtime can be driven through.",
  "The tests run one exported async function to completion.",
  ["src/dyn_traits/futures/executor.rs"], [("FfiFutureExecutor for tokio's Handle", "src/dyn_traits/futures/executor.rs")],
  ["JoinHandle", "tokio::runtime::Handle::try_current"], note=SIM + " Only tokio's current-thread scheduler is simulated; the multi-thread one would bring uncontrolled threads.")
# ---- containers and text
prop("O01", "Owned containers keep their contents and are freed once, as they were allocated",
  "Vectors, boxes, boxed slices and optional values keep their elements, order, length and capacity when converted to their boundary form and back, and when read or changed through views of them. Every element is destroyed exactly once and every allocation freed once, with the size and alignment it was made with, by whichever side drops it last.",
  ["inputs", "histories", "schedules"], "Every element kind (with destructors, zero-sized, padded, over-aligned), length (empty too), spare capacity, sequence of conversions, views, clones and drops, on several threads.",
  "The tests convert a few vectors of integers; layout and number of frees are not observed.",
  ["src/vec.rs", "src/boxed.rs", "src/slice.rs", "src/option.rs", "src/ptr.rs"], [("repr_c::Vec", "src/vec.rs"), ("repr_c::Box and slice boxes", "src/boxed.rs"), ("slice::{Box,Ref,Mut,Raw}", "src/slice.rs"), ("TaggedOption", "src/option.rs")],
  ["the allocator", "element destructors", "views"], note=SIM)
prop("O02", "Panics in user code leave owned containers valid, and lose nothing",
  "A panic in user code that runs in the middle of an operation on an owned container (cloning an element, destroying one, or a closure the container is lent to) leaves the container valid: it can be read, changed and dropped, and no element is lost, destroyed twice, or leaked beyond what the standard library's own container would. The panic itself reaches the caller.",
  ["crash_points", "fault_sequences", "inputs"], "Every element at which a clone or destructor panics, every point of a lent-to closure, every container and length.",
  "No test panics inside a container operation.",
  ["src/vec.rs", "src/boxed.rs", "src/slice.rs", "src/string/_mod.rs", "src/utils/_mod.rs"], [("with_rust_mut", "src/vec.rs"), ("Clone and Drop of containers", "src/slice.rs")],
  ["element destructors", "the allocator", "the container after the panic"], note=SIM)
prop("S01", "C strings keep their text, end where they end, and refuse what cannot be one",
  "Text turned into a C string reads the same to a C program up to its terminator and to Rust after it comes back, whatever way it was made, lent, cloned or returned; it is freed once, as it was allocated. Text with an inner NUL is refused, and what was given is handed back intact where that is promised. Equality, ordering, hashing and printing are those of the text.",
  ["inputs", "histories", "schedules"], "Every text (empty, NULs anywhere, multi-byte, invalid UTF-8), way of making and giving back, on several threads.",
  "The tests use a few literals and never free from the other side.",
  ["src/char_p.rs", "src/c_char.rs"], [("char_p::{Ref, Box, Raw} and conversions", "src/char_p.rs")], ["the bytes a C program reads", "the allocator"], note=SIM)
prop("S02", "Strings with a length keep their text across the boundary and lent closures",
  "Owned and boxed strings and string slices keep their text, length and capacity when they cross the boundary and come back, and through every change made while they are lent to Rust code as an ordinary string, even where that code panics. They are always valid UTF-8 and are freed once, as they were allocated.",
  ["inputs", "histories", "crash_points"], "Every text, spare capacity, sequence of conversions, changes and drops, and point at which the lent-to code panics.",
  "The tests convert one literal.",
  ["src/string/_mod.rs", "src/string/slice.rs"], [("repr_c::String and with_rust_mut", "src/string/_mod.rs"), ("str::{Box, Ref}", "src/string/slice.rs")], ["text, length and capacity", "the allocator"], note=SIM)
# ---- the rest is appended by the sections below
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "more.py")).read())

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
with open(f"{root}/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
with open(f"{root}/MANIFEST.json", "w") as f:
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": CHECKS, "not_applicable": NA,
               "notes": "No hooks in /repo: the seams used are its allocator, vtables, executor, writer and definer interfaces. Repairs are listed in known_findings.txt."}, f, indent=1)
    f.write("\n")
