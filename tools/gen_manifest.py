#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl; the deciding technique of each check is described here."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DS = ("Real code under a deterministic scheduler: generated programs x generated interleavings (every lock, condition, atomic and, in the fine suites, plain access is a "
      "switch point; spurious wake-ups and weak-CAS failures included), sequentially consistent. ")
SEQ = "Real code under AddressSanitizer and part of UBSan, generated histories against a model. "
ASM = "Bounded: few threads, short programs, sampled not exhaustive; trusts clang's instrumentation and the scheduler in engine/ds.cpp."
CROWD = "Crowds: up to 131072 threads (run until they wait) in one case. "
T = {
 "C01": ("schedule fuzzing with a linearizability oracle (counter model)", DS + ASM),
 "C02": ("schedule fuzzing with a no-stranded-waiter invariant at quiescence", DS + CROWD + ASM),
 "C03": ("schedule fuzzing with functor exclusion and all-or-nothing oracle", DS + ASM),
 "C04": ("schedule fuzzing of abort at every point, invariant over the history", DS + CROWD + ASM),
 "C05": ("property-based testing of constructor arguments against a wide-integer model", DS + "Numeric limits are reached by generated boundary arguments and by histories started next to the limit. " + ASM),
 "C06": ("model-based property testing (std::deque reference), differential between build flavours", SEQ + "Also -O2 without sanitizers for large histories. Single-threaded by specification."),
 "C07": ("schedule fuzzing with a linearizability oracle (bounded FIFO)", DS + CROWD + ASM),
 "C08": ("stateful schedule fuzzing of prime/put/get/abort/flush against a state-machine model", DS + CROWD + ASM),
 "C09": ("property-based testing of sizes, types and counts with shadow-memory oracle", SEQ + "Element sizes 1..~400 bytes in the typed suites, to megabytes per slot in the large one; pool sizes up to 64Ki sampled."),
 "C10": ("stateful model-based testing with injected constructor failures", SEQ + "Object identities tracked by a registry; failures injected at any construction."),
 "C11": ("stateful model-based testing with injected element-constructor failures", SEQ + "Scalars, objects, derived pools."),
 "C12": ("schedule fuzzing with live-range overlap oracle and linearizability of occupancy", DS + ASM),
 "C13": ("schedule fuzzing with interval bounds on every statistics read and exact values at rest", DS + "Pools, queues and histories of up to hundreds of thousands of slots also at -O2. " + ASM),
 "C14": ("schedule fuzzing with FIFO linearizability and message life-cycle oracle", DS + CROWD + ASM),
 "C15": ("schedule fuzzing with capacity invariant and no-stranded-thread invariant at quiescence", DS + CROWD + ASM),
 "C16": ("schedule fuzzing with injected exceptions in constructors, dispatch and functors", DS + ASM),
 "C17": ("schedule fuzzing of abort and destruction at every point", DS + CROWD + ASM),
 "C18": ("schedule fuzzing of dispatch-lock object scripts with an ownership shadow model", DS + ASM),
 "C19": ("schedule fuzzing with interval bounds on statistics and names, purge model", DS + "Pools, queues and histories of up to hundreds of thousands of slots also at -O2. " + ASM),
 "C20": ("metamorphic allocation counting over generated histories and schedules", DS + SEQ + "Every allocator entry point is counted. " + ASM),
 "C21": ("schedule fuzzing with linearizability of lock/try_lock, plus generated platform errors", DS + "Error codes are injected into the pthread calls; the protocol is read from the attributes at pthread_mutex_init, and the kernel's own priority boosting is trusted. " + ASM),
 "C23": ("property-based testing of constructor arguments with generated allocation failures", DS + "The n-th allocation, or initialisation of a lock or condition variable, of a construction fails, n generated; sizes up to 2^64-1, also with real memory at -O2 (up to 1 GiB address space). " + ASM),
 "C24": ("stateful schedule fuzzing of several components with nested calls, per-component models", DS + ASM),
 "C25": ("metamorphic work counting: random histories of large components against the smallest; idle waiters", DS + "Work is what compiler instrumentation sees: branches, memory accesses, calls, locks; up to 4 times the dearest on the smallest instance plus 256 is allowed. " + ASM),
 "C26": ("grammar-based generation of C++ programs; the compiler's verdict and the results against a contract model", "Programs are generated from choices, compiled by clang and gcc in C++17 mode, linked with the library and run (AddressSanitizer and UBSan, or -O2 against the shared library with hidden visibility); programs to be refused are compiled one by one and their types alone have to compile. Sampled, not exhaustive; out of the domain: pointers to functions or volatile objects in rings, aggregates, over-aligned types, types whose moves throw."),
 "C22": ("schedule fuzzing with a vector-clock happens-before race detector", DS + "Weak-memory effects are covered as far as missing happens-before edges reveal them. " + ASM),
}
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
m = {
 "version": 1,
 "setup_cmd": "python3 -c \"import shutil,sys; sys.exit(0 if shutil.which('clang++') else 1)\"",
 "checks": [{
   "property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
   "evidence_file": "evidence/%s.json" % p["id"], "technique": T[p["id"]][0], "level": "exploration", "level_note": T[p["id"]][1]} for p in props],
 "not_applicable": [],
 "notes": "No hooks in /repo: the code under test is instrumented by the compiler and by interposing the C library. check.py builds /repo's working tree for each check. A replay file is run with: python3 check.py ID --replay FILE",
}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
