#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
T = "deterministic simulation with fault injection: "
D = {
 "C01": "seeded search over program histories and schedules, output compared with a reference evaluator of the graph in force",
 "C02": "seeded search over node drops at arbitrary moments, survivors compared with a reference model without the node",
 "C03": "seeded search over start/stop histories and racing clock reads, clock and output compared with a reference model",
 "C04": "seeded search over callback slicings and block sizes, one slicing-independent reference model",
 "C05": "seeded search over control/audio interleavings, each call's effect point checked against the model",
 "C06": "seeded search over automation histories and arrival times, per-frame reference automation model",
 "C07": "seeded search with stalled threads and backlogs, simulated blocking primitives detect any wait or unbounded work in a callback",
 "C08": "seeded search with a stalled, stopped or lost device, simulated blocking primitives detect any wait in a control call",
 "C09": "seeded search over recording histories and notification stalls, recordings compared with the modelled input",
 "C10": "seeded search over interval rates, slicings and consumer stalls, reports compared with a reference follower",
 "C11": "seeded search over sampler event histories, output compared with a reference playback model with fade bounds",
 "C12": "seeded search over note and setting histories, output compared with a reference envelope",
 "C13": "seeded search over level calls racing with callbacks, output compared with the matrix in force per block",
 "C14": "seeded search over teardown orders and collector stalls, allocator ledger of every node and thread table",
 "C15": "seeded search over several engines interleaved in one process, each compared with its own isolated model",
 "C16": "seeded search over host buffer shapes with poisoned and fenced buffers",
 "C17": "seeded search over effect chains, slicings and automation, per-sample reference recurrences",
 "C18": "seeded search over schedules, hash seeds and allocation histories, one schedule-independent reference model",
 "C19": "seeded search over schedule/cancel histories and arrival times, reference model of the pending changes",
 "C20": "seeded search over long churn histories, allocator ledger over repeated identical cycles and output against the model",
 "C21": "seeded search over device formats and nested views with fenced host memory",
}
NOTE = ("Randomised exploration, not proof: thousands of simulated executions per quick run, each a whole program with real control, audio and collector code under a "
        "seeded scheduler, checked against sim/src/model.rs. Trusts that model, sequentially consistent interleavings, and the simulated std/crossbeam primitives.")
NA = {
 "C90": "A pure function of its input: no schedule, time, I/O or fault can influence it, so simulation decides nothing beyond input sampling; the conversions are exercised indirectly by C01-C21.",
 "C91": "A pure function of the filter parameters evaluated once at construction; no nondeterminism to simulate. The recurrence run with those coefficients is covered by C17.",
 "C92": "The simulator runs one thread at a time, so its executions are sequentially consistent by construction; weak-memory reorderings are outside what it can produce.",
}
json.dump({
 "version": 1,
 "setup_cmd": "bash -c '. tools/build.sh'",
 "hooks": {"guard": "none", "enable": "No change to /repo is needed: crossbeam is substituted by Cargo patching, std's time, sleep, futex, join, entropy and thread creation by link-time interposition, the allocator by #[global_allocator], and preemption points by compiler instrumentation in /verif/sim.", "source_commits": []},
 "checks": [{
   "property": p, "quick_cmd": f"tools/check.sh {p} quick", "thorough_cmd": f"tools/check.sh {p} thorough",
   "technique": T + D[p], "level": "exploration", "level_note": NOTE} for p in D],
 "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
}, open("/verif/MANIFEST.json", "w"), indent=1)
