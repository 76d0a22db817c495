#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = "bounded exhaustive exploration of the real code against an independent reference model"
CHECKS = {
 "C01": ("model_checking", "explicit-state search of sampling-context states on the real code", "all contexts reachable by sampling at an alphabet of ratios, over families of small animations; pose compared bit for bit with a fresh context in every state"),
 "C02": ("exploration", E, "every key layout up to the bound sampled at all key times, neighbours and midpoints; oracle is an f64 bracketing interpolation"),
 "C03": ("model_checking", "explicit-state search of operation sequences on a shared sampling context", "breadth-first over sample/clear/move/replace operations on sets of animations and capacities"),
 "C04": ("model_checking", "explicit-state search: snapshot at every reachable playback state, every continuation", "every snapshot mechanism at every state of every history up to the depth"),
 "C05": ("exploration", "exhaustive enumeration of the codec's input space", "all 65536 half-floats in every lane, all rotation field boundaries; oracle is the published format in f64"),
 "C06": ("exploration", E, "archives written by an independent encoder in both byte orders, every short-read pattern"),
 "C07": ("fault_enumeration", "exhaustive fault injection at every byte and every read call", "every truncation point, every failing read with every error kind, every corrupted header field"),
 "C08": ("exploration", E, "every asset of the families through nine serialisation forms"),
 "C09": ("exploration", E, "all hierarchies up to the bound, all from/to/excluded combinations, all joint-change histories up to the depth"),
 "C10": ("exploration", E, "all hierarchies up to the bound, all queries and traversals"),
}
CHECKS.update({
 "C11": ("exploration", "exhaustive enumeration of sequences of blend runs on one job, every layer/weight combination per run", "independent f64 blend model; every ordered pair of runs on one job compared with a fresh one"),
 "C12": ("exploration", "exhaustive product of present/absent parameters and short/exact/long buffers for every job", "oracle is a sizes-and-presence predicate; outputs compared with their previous bits on refusal"),
 "C13": ("exploration", E, "every track up to the bound at every key time, neighbours and midpoints, both ends, clamped ratios"),
 "C14": ("exploration", "exhaustive exploration of window histories: every window and every split of it into frames", "oracle enumerates crossings of the looped track directly; split, mirror and shift laws checked on the real iterator"),
 "C15": ("exploration", E, "chain geometries x targets x poles x mid axes x weights x softening x twist; f64 forward kinematics is the oracle"),
 "C16": ("exploration", E, "joint placements x axes x offsets x targets x poles x weights x twist; f64 geometry is the oracle"),
 "C17": ("exploration", E, "every list of layers up to the bound over weight and delta alphabets; f64 oracle"),
 "C18": ("exploration", E, "every influence count x attribute combination x vertex count x index/weight alphabet; f64 oracle"),
 "C19": ("exploration", "exhaustive pairwise comparison of build variants over the whole case enumeration", "every case is executed by eight variants: optimised+checked (three processes), unoptimised, O3, O3 with AVX2/FMA, WebAssembly, WebAssembly with SIMD; all output bits compared"),
 "C20": ("model_checking", "stateless exploration of all interleavings of the real jobs at lock acquisitions, with visited-state pruning", "harness buffers implement the library's buffer traits and ask a controller before every acquisition; writer- and reader-preferring locks; solo runs on the locked contents are the oracle; poisoned and really contended buffers as well"),
 "C21": ("exploration", "exhaustive enumeration of buffer and ownership flavours", "every combination of supported flavours per job, compared bit for bit with plain slices; inputs compared before/after"),
 "C22": ("exploration", "exhaustive enumeration of single-precision arguments", "quick: every 8th float of the domains; thorough: every float; f64 libm is the oracle"),
 "C23": ("model_checking", "explicit-state search of parameter-change and run sequences on a reused job", "breadth-first over operation sequences to the depth; every run compared with a freshly built job"),
})
CHECKS.update({
 "C24": ("model_checking", "the state spaces of the other checks re-explored under an adversarial allocator", "every allocation and release monitored: layouts, guard bytes, leaks, double release, zero sizes, minimal alignment, two fills of fresh memory whose results must agree"),
 "C25": ("exploration", "exhaustive enumeration of lane contents for every operation", "every operation on every combination of lane values over an alphabet with special values, compared lane by lane with the operation on that lane alone and with scalar arithmetic"),
 "C27": ("model_checking", "exhaustive enumeration of operation sequences on the real jobs", "every sequence of setters, clearers, takers and runs to a depth on each of the nine jobs, every getter compared with a table of last-set values after each"),
 "C26": ("fault_enumeration", "exhaustive enumeration of faults in serialised documents", "every cut, missing field, wrong list length (singly and in pairs), announced size, replaced, doubled or removed part of a JSON document and every cut and byte value of a binary document, on the real deserialisers; the list lengths decide which must be refused, accepted ones must serialise back to the document"),
})
NA = {}
checks, na = [], []
for line in open(os.path.join(root, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid in CHECKS:
        lvl, tech, note = CHECKS[pid]
        checks.append({"property": pid, "quick_cmd": f"bash check.sh {pid} quick", "thorough_cmd": f"bash check.sh {pid} thorough",
                       "technique": tech, "level": lvl, "level_note": note})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
