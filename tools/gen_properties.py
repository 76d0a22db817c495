#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only so that the JSON stays well-formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
            "mechanism": [dict(name=a, where=b) for a, b in mech],
            "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Sampling does not depend on what was sampled before",
  "Sampling an animation at a ratio through a context produces bit for bit the pose a brand-new context would produce for that ratio, whatever sequence of earlier ratios (forward, backward, jumps, repeats, ends, out-of-range values) the context has already served. It holds for animations with and without seek frames, for any seek interval, key layout and track count, and sampling never fails or crashes on a valid animation.",
  ["histories", "inputs"],
  "every sequence of sampling ratios, over every well-formed animation",
  "Tests replay a few hand-written ratio lists over a handful of animations; the incremental cache update, rewind and seek paths depend on the whole history of ratios.",
  ["src/sampling_job.rs"],
  [("incremental cache update, rewind, seek-frame initialisation", "src/sampling_job.rs update_cache/initialize_cache/track_forward/track_backward"), ("outdated flags and decompression of stale SoA groups", "src/sampling_job.rs outdate_cache/decompress_*")],
  [("SamplingContext", "key cursor, per-track entries, outdated bits and decompressed keys of the last sample", "src/sampling_job.rs")],
  ["output pose of the sampling job", "public getters of the sampling context"])

p("C02", "A sampled pose is the interpolation of the two keys around the ratio",
  "For every track and channel, the sampled value is the linear (translation, scale) or normalised-linear (rotation) interpolation, at the clamped ratio, between the decompressed key at or before the ratio and the next key after it; ratios outside [0,1] behave as the nearest bound. All tracks are sampled whatever their number, and output elements beyond the animation's tracks are left untouched.",
  ["inputs"],
  "every well-formed animation (track count, key times, values, seek interval) and every ratio",
  "Tests compare a few recorded poses of fixed assets; bracketing, clamping and interpolation must hold for each key layout and ratio.",
  ["src/sampling_job.rs", "src/animation.rs", "src/math.rs"],
  [("bracketing key search and SoA interpolation", "src/sampling_job.rs update_cache/interpolates"), ("key decompression", "src/animation.rs simd_decompress")],
  [], ["output pose of the sampling job"])

p("C03", "One sampling context can serve any animation that fits, in any order",
  "A context whose capacity is at least that of the animation yields exactly the pose a dedicated fresh context yields, whatever other animations it served before, however much larger its capacity is, whether it was cleared or moved between jobs, and whether an earlier animation was freed or replaced in between. A context with too small a capacity is rejected without touching the output.",
  ["histories", "configurations"],
  "every sequence of (animation, ratio, clear, replace) operations on one context, for every capacity",
  "Tests give each context one animation or two of equal size; stale cache entries only show up when sizes, key counts and orders differ.",
  ["src/sampling_job.rs"],
  [("cache invalidation when the animation changes", "src/sampling_job.rs step_context"), ("capacity check", "src/sampling_job.rs validate/run")],
  [("SamplingContext animation identity", "which animation the cached cursor belongs to", "src/sampling_job.rs")],
  ["output pose of the sampling job", "job result"])

p("C04", "A saved, cloned or restored sampling context continues identically",
  "At any point of a playback, a context that is cloned, cloned without its animation identity, cleared, or saved and restored through either supported serialisation format continues with exactly the poses the original context produces, and a clone or restored full copy compares equal to the original. Copying a context never changes the original, and contexts built by the same operations always compare equal.",
  ["histories", "crash_points"],
  "every playback history, every snapshot point in it, every snapshot mechanism and every continuation",
  "Tests snapshot one context at one point; a field forgotten by one mechanism only matters for particular continuations.",
  ["src/sampling_job.rs"],
  [("Clone, PartialEq, rkyv and serde implementations of the context", "src/sampling_job.rs")],
  [("SamplingContext", "all cached playback state", "src/sampling_job.rs")],
  ["pose after resuming", "equality of contexts", "serialised form"])

p("C05", "Compressed keyframes decode to the value they encode",
  "Every compressed vector key decodes to the three half-precision numbers it stores, and every compressed rotation key decodes to the quaternion it stores: three components within quantisation error in their stored positions, the largest component rebuilt with its stored sign so that the result has unit length. The one-key and the four-keys-at-once decoders give the same result for every bit pattern, lane by lane.",
  ["inputs"],
  "every bit pattern of a half-precision component; every stored component value, position, sign of a rotation key, in every lane",
  "Tests decode a few constants; special exponents (zero, denormals, largest finite values, both signs) and each lane need the whole 16-bit space.",
  ["src/animation.rs", "src/math.rs"],
  [("half float and smallest-three decoding", "src/math.rs f16_to_f32/simd_f16_to_f32, src/animation.rs decompress/simd_decompress")],
  [], ["public decompress functions of the two key types", "sampled pose"])

p("C06", "Assets load faithfully from any valid archive and reader",
  "Loading a valid animation, skeleton or track archive reproduces every stored value (names, counts, duration, hierarchy, rest pose, keys, ratios, interpolation modes), whichever byte order the archive uses, however many bytes the reader delivers per call, and on both sides of the sizes at which the stored index width changes. Loading from a slice, an owned buffer, a file or a custom reader gives equal objects.",
  ["inputs", "fault_sequences"],
  "every valid archive content, both byte orders, every pattern of short reads and interrupted reads",
  "Tests load little-endian files through one reader; byte-swapping, short reads and the wide index format are not exercised by any asset.",
  ["src/archive.rs", "src/endian.rs", "src/animation.rs", "src/skeleton.rs", "src/track.rs"],
  [("endian-aware primitive readers", "src/archive.rs, src/endian.rs"), ("field order and widths of each asset", "src/animation.rs, src/skeleton.rs, src/track.rs from_archive")],
  [], ["public getters of loaded assets", "sampling loaded assets"])

p("C07", "Broken archives are refused with an error, never a crash",
  "Loading an asset from an archive that is truncated at any byte, whose reader fails at any read, whose tag or version is wrong, whose text is not valid UTF-8 or whose stored counts announce more data than the archive holds returns an error and never panics, crashes, hangs or returns an asset. The error distinguishes wrong tag, wrong version and input/output failure, the latter preserving the reader's error kind.",
  ["fault_sequences", "inputs"],
  "every truncation point, every failing read, every tag/version byte, every corrupted count field of an archive",
  "Tests load only valid files; each read is a separate failure point.",
  ["src/archive.rs", "src/animation.rs", "src/skeleton.rs", "src/track.rs"],
  [("error propagation in every reader", "src/archive.rs"), ("tag and version checks, allocation of announced sizes", "src/animation.rs, src/skeleton.rs, src/track.rs")],
  [], ["result of loading"])

p("C08", "Assets survive serialisation round trips unchanged",
  "Serialising a skeleton, animation or track with either supported serialisation format and reading it back gives an object that exposes the same data and behaves identically when used (same poses, same hierarchy queries, same track values), for every asset size and for names, values and index widths of every kind. Reading back works from any input form the format offers.",
  ["inputs", "configurations"],
  "every asset and every supported serialisation format",
  "Tests round-trip one asset of each kind; field-specific omissions and sizes not multiple of four are not covered.",
  ["src/animation.rs", "src/skeleton.rs", "src/track.rs", "src/math.rs"],
  [("rkyv and serde implementations", "src/animation.rs, src/skeleton.rs, src/track.rs, src/math.rs")],
  [], ["getters and jobs on the restored asset"])

p("C09", "Model-space matrices compose local transforms along the hierarchy",
  "Converting a local pose gives each updated joint its parent's model matrix (or the given root, identity by default, for roots) times its own local transform built from scale, rotation and translation. A partial update starting at a joint rewrites exactly that joint's subtree (optionally without the joint itself) up to the last requested joint, and leaves every other output matrix untouched.",
  ["inputs", "configurations"],
  "every depth-first-ordered hierarchy, every pose, every root matrix and every from/to/exclusion option including out-of-range values",
  "Tests use one seven-joint hierarchy with a few ranges; subtree bounds depend on hierarchy shape and joint alignment in groups of four.",
  ["src/local_to_model_job.rs", "src/math.rs", "src/skeleton.rs"],
  [("subtree walk with early exit, SoA to AoS matrices", "src/local_to_model_job.rs run"), ("affine composition", "src/math.rs SoaMat4::from_affine")],
  [], ["output matrices of the local-to-model job"])

p("C10", "Skeleton queries and traversals reflect the hierarchy",
  "Parent, leaf, index-by-name, name-by-index and rest-pose queries of a loaded skeleton agree with the stored data; depth-first iteration from a joint visits exactly its subtree, parents before children, each joint once, and reverse iteration visits every joint exactly once, children before parents.",
  ["inputs"],
  "every depth-first-ordered hierarchy with unique names and every starting joint",
  "Tests check one or two shapes; leaf and subtree detection depend on the whole parent array.",
  ["src/skeleton.rs"],
  [("leaf detection from neighbouring parents, subtree range", "src/skeleton.rs is_leaf/iter_depth_first"), ("name map", "src/skeleton.rs JointHashMap")],
  [], ["skeleton getters and traversal callbacks"])

p("C11", "Blending yields the weighted pose, whatever the inputs and past runs",
  "The blended pose is, per joint, the average of the positively weighted layers (rotations taken on the same side), topped up with the rest pose when the accumulated weight is below the threshold, with joint weights multiplying layer weights; additive layers are then applied on top in proportion to positive weights and removed in proportion to negative ones. Zero and negative normal weights contribute nothing, rotations stay normalised, and neither previous content of the output nor what the job blended before influences the result.",
  ["inputs", "histories"],
  "every set of layers, weights, joint weights, thresholds, rest poses, sizes and previous runs",
  "Tests check some weight combinations on tiny poses; normalisation, threshold and first/next layer passes interact per joint.",
  ["src/blending_job.rs", "src/math.rs"],
  [("layer passes, rest-pose top-up, normalisation, additive pass", "src/blending_job.rs")],
  [("BlendingContext accumulated weights", "per-joint weights of the last run", "src/blending_job.rs")],
  ["output of the blending job"])

p("C12", "Jobs run only when valid and refuse invalid parameters without damage",
  "For every job, running with a missing mandatory parameter or an undersized buffer returns an invalid-job error, never panics, and leaves the output exactly as it was; with valid parameters the run succeeds. Validation covers presence and sizes and accepts exactly the parameter sets with which running succeeds, and larger-than-needed buffers are accepted; an out-of-range joint index stored in a skinning index buffer makes the run return the invalid-index error instead of panicking.",
  ["configurations", "inputs"],
  "every combination of present/absent parameters and too short/exact/too long buffers, for every job",
  "Tests probe some missing parameters one at a time; the product of parameters and sizes is not covered, nor is output preservation.",
  ["src/sampling_job.rs", "src/blending_job.rs", "src/local_to_model_job.rs", "src/skinning_job.rs", "src/track_sampling_job.rs", "src/track_triggering_job.rs", "src/motion_blending_job.rs", "src/ik_aim_job.rs", "src/ik_two_bone_job.rs"],
  [("validate and run of every job", "src/*_job.rs")],
  [], ["result of validate and run", "output buffers"])

p("C13", "Track sampling returns the track's value at a ratio",
  "Sampling a user-channel track of any value type at a ratio gives the interpolation of the two surrounding keys (normalised for rotations) on linear keys, holds the key's value on step keys, returns the first/last value at or beyond the ends, and clamps ratios to [0,1].",
  ["inputs"],
  "every well-formed track (type, key count, key times, step flags) and every ratio",
  "Tests sample a few tracks at a few ratios; step flags are packed bits and indices matter per position.",
  ["src/track_sampling_job.rs", "src/track.rs"],
  [("key search, step flag lookup, interpolation", "src/track_sampling_job.rs run")],
  [], ["result of the track sampling job"])

p("C14", "Track triggering reports each threshold crossing exactly once",
  "For a time window, the reported edges are exactly the instants at which the looping track crosses the threshold inside it, in playback order, each with the direction of crossing; a window cut at any point yields the same edges as the whole, a window played backward yields the mirrored edges in reverse order, and shifting a window by whole loops shifts its edges. Empty windows report nothing.",
  ["inputs", "histories"],
  "every well-formed track, threshold, pair of window bounds, and every split of a window into frames",
  "Tests check some windows; losing or duplicating an edge at a frame boundary, loop boundary or key needs particular coincidences.",
  ["src/track_triggering_job.rs"],
  [("edge detection and iteration over loops", "src/track_triggering_job.rs run/TrackTriggeringIterator")],
  [], ["edges returned by the triggering iterator"])

p("C15", "Two-bone IK reaches the target whenever it is reachable",
  "With full weight, no softening and no twist, applying the produced corrections places the end joint on the target if the target's distance lies between the minimum and maximum extension of the chain, otherwise as near as the chain allows, and reports reachability accordingly; bone lengths and joint order never matter. For a mid axis orthogonal to both bones and a pole not aligned with the start-to-target direction, the mid joint bends toward the pole vector rotated by the twist about that direction. Weights scale the correction from none to full, softening keeps the reach continuous, growing with the target distance and within the chain length, and results are unit quaternions.",
  ["inputs"],
  "every chain geometry, target, pole, mid axis, weight, soften and twist value",
  "Tests check some axis-aligned setups; branches for folded, stretched, aligned and opposite geometry combine.",
  ["src/ik_two_bone_job.rs", "src/math.rs"],
  [("law-of-cosines corrections, softening, pole alignment", "src/ik_two_bone_job.rs")],
  [], ["start and mid joint corrections", "reached flag"])

p("C16", "Aim IK points the joint's forward axis at the target",
  "With full weight, applying the produced correction makes the joint's forward direction (from its offset) pass through the target whenever the offset makes that possible, and reports reachability accordingly; when pole and up axis are not degenerate, the up axis lies in the plane of aim direction and pole vector, on the pole's side, turned by the twist angle about the aim direction. Weights scale the correction from none to full, and the result is a unit quaternion.",
  ["inputs"],
  "every joint placement, forward/up/offset axis, target, pole, weight and twist value",
  "Tests check some axis-aligned setups.",
  ["src/ik_aim_job.rs", "src/math.rs"],
  [("offset-corrected aim and pole alignment", "src/ik_aim_job.rs")],
  [], ["joint correction", "reached flag"])

p("C17", "Motion blending averages direction, length and rotation by weight",
  "Blending root-motion layers gives a translation whose length is the weighted average of the layers' lengths and whose direction is the weighted average of their directions, and a normalised weighted rotation taken on one side; layers with zero or negative weight are ignored, weights need not sum to one, scale is one, and no effective layer gives the identity.",
  ["inputs"],
  "every number of layers, weights and motion deltas",
  "Tests check a few layer pairs.",
  ["src/motion_blending_job.rs"],
  [("weighted accumulation of length, direction and rotation", "src/motion_blending_job.rs run")],
  [], ["output transform of the motion blending job"])

p("C18", "Skinning applies the weighted joint matrices to every vertex",
  "For every number of influences per vertex and every combination of positions, normals and tangents, with or without separate inverse-transpose matrices, each output vertex equals its input transformed by the weighted sum of its joints' matrices, the last weight being one minus the others; all requested vertices and only they are written, regardless of vertex count.",
  ["inputs", "configurations"],
  "every influence count, attribute combination, vertex count, joint indices and weights",
  "Tests compare recorded values for a few kernels; there are 25 specialised kernels.",
  ["src/skinning_job.rs"],
  [("specialised kernels selected by influence count and attributes", "src/skinning_job.rs")],
  [], ["output vertex buffers of the skinning job"])

p("C19", "Results are bit-identical on every build and platform",
  "Given the same inputs, every job and loader produces bit-identical results whether compiled with or without optimisations, with or without the processor's wide-vector and fused-multiply instructions, natively or for WebAssembly, and in every process and run (memory sizes aside, and all NaNs counting as equal). Hash-based containers and serialised forms are in the same order in every build, process and run for one target.",
  ["configurations", "inputs", "histories"],
  "every build configuration and target against every other, over the whole explored input space",
  "Each test run exercises one build on one machine; equality across builds is a relation between executions.",
  ["src/math.rs", "src/base.rs", "src/sampling_job.rs", "src/blending_job.rs", "src/skeleton.rs", "Cargo.toml"],
  [("software trigonometry, fixed SIMD operation order, deterministic hasher", "src/math.rs, src/base.rs")],
  [], ["all job outputs", "serialised assets"])

p("C20", "Jobs sharing buffers across threads behave atomically and never deadlock",
  "Jobs on different threads that share assets and lockable buffers along a pipeline (sampled poses, blended poses, model matrices, vertices; no job reads what it writes) always finish, whatever the interleaving, and each computes exactly what it would compute alone from the contents its buffers have at the moments it locks them. No buffer is ever visible half written, and two concurrent jobs give the result of running them one after the other. A job waits for a buffer in use instead of failing and leaves every buffer unlocked; readers do not exclude each other. A buffer left poisoned by a panicking thread makes every job that needs it return the lock error, without panicking, hanging or changing any buffer. A buffer that another thread replaces, shortens or lengthens while it is free (layers of a blending job: without shortening them) never makes a job panic: the job uses what it locked or refuses it.",
  ["schedules", "fault_sequences"],
  "every interleaving of up to three jobs (four in the thorough tier, or two threads of two jobs) over shared buffers at lock granularity, every poisoned subset of buffers, a panic at every point between lock acquisitions, every buffer replaced by another of every length before every acquisition",
  "No test runs jobs concurrently in controlled order.",
  ["src/base.rs", "src/sampling_job.rs", "src/blending_job.rs", "src/local_to_model_job.rs", "src/skinning_job.rs"],
  [("read/write lock guards behind the buffer traits", "src/base.rs"), ("lock acquisition order and duration in each run", "src/*_job.rs run")],
  [("shared pose buffers", "contents guarded by reader-writer locks", "src/base.rs")],
  ["job results and final buffers for each schedule"])

p("C21", "Every buffer and ownership flavour gives the same result",
  "A job given its inputs and outputs as borrowed slices, owned vectors, single-threaded shared cells or thread-safe locked vectors, and its assets by value, reference or shared pointer, produces bit-identical outputs, and leaves its inputs unchanged.",
  ["configurations"],
  "every combination of supported buffer and ownership flavours for every job",
  "Tests use mostly one flavour per job.",
  ["src/base.rs", "src/blending_job.rs", "src/local_to_model_job.rs", "src/skinning_job.rs", "src/sampling_job.rs", "src/motion_blending_job.rs", "src/track_sampling_job.rs", "src/track_triggering_job.rs"],
  [("buffer and object traits", "src/base.rs")],
  [], ["outputs per flavour"])

p("C22", "Deterministic trigonometry is accurate over its useful domain",
  "The library's own sine, cosine, arc sine and arc cosine agree with the true mathematical functions to within a few units of single precision (2e-7 absolute plus 2.5e-11 times the argument's magnitude) for arc arguments in [-1,1] and angles up to 1e5 radians, respect symmetry and exact values at zero, clamp rather than fail outside the arc functions' domain, and the combined sine-cosine equals the separate functions.",
  ["inputs"],
  "every single-precision argument in [-1,1] for arc functions and over many periods for sine and cosine",
  "Tests compare a coarse grid of arguments.",
  ["src/math.rs"],
  [("polynomial approximations with range reduction", "src/math.rs fx4_sin_cos/fx4_asin/fx4_acos")],
  [], ["f32_sin_cos, f32_sin, f32_cos, f32_asin, f32_acos"])

p("C23", "A reused job behaves like a freshly built one",
  "After any sequence of parameter changes and runs, successful or failed, a job's next run gives exactly the result a newly constructed job with the same current parameters gives on the same buffers; running never alters inputs or parameters, and clearing a parameter restores its default behaviour.",
  ["histories"],
  "every short sequence of parameter changes and runs, for every job",
  "Tests build jobs once or reuse them along one path.",
  ["src/sampling_job.rs", "src/blending_job.rs", "src/local_to_model_job.rs", "src/skinning_job.rs", "src/track_sampling_job.rs", "src/track_triggering_job.rs", "src/motion_blending_job.rs", "src/ik_aim_job.rs", "src/ik_two_bone_job.rs"],
  [("setters, getters, clearers, run", "src/*_job.rs")],
  [("job fields", "current parameters", "src/*_job.rs")],
  ["outputs and getters after every step"])

p("C24", "Assets, contexts and jobs manage memory exactly",
  "For any history of loading (successful or failed at any byte), restoring, cloning, sampling, running, replacing and dropping assets, contexts and jobs, every block of memory is released exactly once with the layout it was requested with, nothing is leaked, no byte outside a live block is written, no zero-sized block is requested, and no result depends on the content of memory the library did not initialise or on a greater alignment than it requested.",
  ["histories", "fault_sequences"],
  "every history explored for the other properties, under every allocator behaviour",
  "Tests run on one allocator that hides leaks, wrong layouts, reads of uninitialised memory and writes past the end.",
  ["src/sampling_job.rs", "src/animation.rs", "src/skeleton.rs", "src/track.rs", "src/archive.rs", "src/base.rs"],
  [("manual allocation of animations, skeletons, tracks and contexts", "src/animation.rs AnimationRaw, src/skeleton.rs, src/sampling_job.rs SamplingContext")],
  [("SamplingContextInner", "one block holding every per-track cache", "src/sampling_job.rs")],
  ["every allocation and release, the guard bytes around every block, every result under two fills"])

p("C25", "Four-wide SoA values are four independent values",
  "A structure-of-arrays vector, quaternion or transform behaves as four independent scalar values: building it from one value repeats that value in every lane, replacing a lane changes only that lane, reading a lane gives back the same bits, named constants have the value of their name in every lane, and every arithmetic operation computes in each lane what the operation gives for that lane alone, whatever the other lanes contain. Every serialised form of such a value, and of the pairs of keys a sampling context holds, reads back to the same bits.",
  ["inputs"],
  "every combination of lane contents over an alphabet with zeros, infinities and NaNs, for every operation",
  "Tests use a few values, mostly equal in all lanes.",
  ["src/math.rs"],
  [("SoaVec3, SoaQuat, SoaTransform", "src/math.rs")],
  [], ["lanes read back", "serialised copies"])

p("C26", "Broken serialised documents are refused, never a crash",
  "Reading an animation, skeleton, track or sampling context from a serialised document that is cut short at any byte, lacks a field, has a part of another type, or whose lists and announced sizes do not fit together (keys, ratios and predecessors; rest poses and joints; track keys and modes; context capacity and caches) returns the format's error: it never panics, aborts, hangs or hands out an object. A document whose parts fit is accepted and keeps its content exactly.",
  ["fault_sequences", "inputs"],
  "every document of every kind with every single fault of the listed kinds, and pairs of wrong list lengths",
  "Tests only read back documents the library has just written.",
  ["src/animation.rs", "src/skeleton.rs", "src/track.rs", "src/sampling_job.rs"],
  [("Deserialize implementations", "src/animation.rs, src/skeleton.rs, src/track.rs TrackRaw, src/sampling_job.rs SamplingContextRaw")],
  [], ["result of deserialising", "what the accepted object serialises to"])

p("C27", "A job's parameters are exactly those last set",
  "After any sequence of setting, clearing, taking and running, each getter of a job returns the value last given for that parameter or, if none was given since it was created or cleared, the documented default; setting or clearing one parameter changes no other, running changes only outputs, and a context that is taken is the one that was set. Constructors of layers, buffers and edges set what they name, each error answers only to its own predicate, and two track values are near-equal exactly when every component differs by at most the bound.",
  ["histories", "configurations"],
  "every sequence of operations of every job up to a depth, every value and bound of an alphabet",
  "Tests set each parameter once in a fixed order; a clear or setter wired to the wrong field only shows in particular orders.",
  ["src/sampling_job.rs", "src/blending_job.rs", "src/local_to_model_job.rs", "src/skinning_job.rs", "src/track_sampling_job.rs", "src/track_triggering_job.rs", "src/motion_blending_job.rs", "src/ik_aim_job.rs", "src/ik_two_bone_job.rs", "src/base.rs", "src/track.rs"],
  [("getters, setters, clear_* and take_* of the jobs", "all *_job.rs files"), ("OzzError predicates, ozz_rc_buf/ozz_arc_buf", "src/base.rs"), ("TrackValue::abs_diff_eq", "src/track.rs")],
  [], ["getters of every job"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        assert "SCHEMA"
        f.write(json.dumps(x) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x, s)
except ImportError: pass
print(len(P))
