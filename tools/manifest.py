#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "deterministic simulation with fault injection"
COMMON = ("Seeded exploration, not exhaustive: the real crates run in one process under a simulated scheduler, heap, "
          "clock, randomness, environment and sinks; one seed is one exactly repeatable execution. Trusts the simulator, "
          "the generator's knowledge of its own programs and rustc; assumes sequential consistency, preemption only in "
          "the instrumented crates, and the unoptimised build the repository's tests use. ")
CHECKS = {
 "C01": (SIM + ": seeded search over interleavings of several callers, each compared with its result alone in a fresh process",
         "Single preemptions at every stride of a caller's work, lockstep, stalls and random schedules with unwinding and failing sinks; oracle is the same operation alone."),
 "C02": (SIM + ": operations after seeded histories and in perturbed environments, compared with a fresh canonical process",
         "Perturbs heap contents, placement and reuse, stack contents, bytes after the source, clock, randomness, environment variables; oracle is a fresh process."),
 "C03": (SIM + ": step and allocation metering of every operation under a simulated clock, growth judged on sources repeated n, 3n and 9n times",
         "Bounds: steps and bytes at most a fixed multiple of input plus output, and no growth of the marginal cost. Loops inside uninstrumented library code (memcpy, memcmp) are not counted as steps."),
 "C04": (SIM + ": damaged and cut sources on a guarded, poisoned heap with seeded contents; panics, signals, aborts and misplaced errors are violations",
         "Every allocation is watched by the simulated heap (guard pages in a third of the runs, red zones and poison in the others)."),
 "C05": (SIM + ": truncation and damage faults whose effect the generator knows, under seeded memory contents behind the source",
         "Only damage that provably cannot leave a program is required to be rejected; statement counts and unique names show that nothing was dropped."),
 "C06": (SIM + ": write faults at every sink call (once, permanent, full, short, interrupted, unwinding) during serialisation",
         "Oracle: the bytes accepted are a prefix of the fault-free output, the error comes back, and a repetition is complete."),
 "C07": (SIM + ": formatter faults at every sink call during dumps and error rendering",
         "Oracle: as C06."),
 "C08": (SIM + ": unwinding and re-entrant operations at every write of code generation",
         "Oracle: prefix of the complete output, balanced indentation at every moment, complete output afterwards."),
 "C09": (SIM + ": unwinding and re-entrant operations at every visitor callback",
         "Oracle: prefix of the complete event sequence, brackets balanced at every moment, complete sequence afterwards."),
 "C10": (SIM + ": simulated heap with failing allocations at every position, poison, guard pages, seeded reuse and placement, leak accounting over repeated histories",
         "Every allocation of a history fails in its own execution; lifetimes of several modules are interleaved with moves, drops and overwritten source buffers."),
 "C11": (SIM + ": seeded histories of complete, failing, abandoned and nested reads of one module, every result compared with a fresh process",
         "Results handed out earlier are rechecked byte for byte during and after the history."),
 "C12": (SIM + ": seeded histories around the transformation of one module among others, compared with the transformation in a fresh process",
         "Partial reads, failures, unwinding, moves and other modules' transformations come before, between and after."),
}
PURE = "a pure function of one input: no schedule, fault, time, memory or history can change whether it holds, so simulation has nothing to decide; "
NA = {
 "C20": PURE + "it needs a round-trip oracle over generated programs (property-based testing).",
 "C21": PURE + "it needs an independent ESTree implementation as an oracle.",
 "C22": PURE + "it needs an independent parser or a reference grammar as an oracle.",
 "C23": PURE + "it needs an independent parser as an oracle.",
 "C24": PURE + "it needs an ECMAScript grammar as an oracle. What a truncated or damaged source has to do is decided under C05.",
 "C25": PURE + "it needs an ECMAScript evaluator as an oracle (at this commit the transformation leaves the program as it is).",
 "C26": PURE + "it needs an independent scope analysis as an oracle.",
 "C27": PURE + "it needs an independent traversal as an oracle. Balance of events and interrupted visits are decided under C09.",
 "C28": PURE + "it needs a reference renderer as an oracle. That rendering returns, in bounds and without dependence on its surroundings, is decided under C02, C03, C04 and C07.",
}
m = {
 "version": 1,
 "setup_cmd": "bash -c '. ./build.sh'",
 "hooks": {
  "guard": "none: no hook was added to /repo",
  "enable": "The checks compile /repo's crates through dst/wrap.sh (RUSTC_WRAPPER), which makes rustc insert a callback at every control-flow edge; the simulated allocator, system calls and sinks are supplied by the simulator's own crate.",
  "source_commits": [],
 },
 "checks": [
  {
   "property": p,
   "quick_cmd": "./check.sh %s" % p,
   "thorough_cmd": "./check.sh %s --tier thorough" % p,
   "evidence_file": "evidence/%s.json" % p,
   "technique": t,
   "level": "exploration",
   "level_note": COMMON + n,
  } for p, (t, n) in CHECKS.items()
 ],
 "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
 "notes": "./check.sh ID [--tier thorough] [--seed N] [--jobs N] [--epochs N] searches; target/release/dst replay FILE repeats a reported violation. Results do not depend on the number of jobs.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
