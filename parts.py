"""What each check runs: scenario x configuration x number of simulated runs, and how its evidence is worded."""


def bvh(n):
    return [{"scenario": "bvh", "config": c, "quick": n} for c in "abc"]


def other(scenario, n):
    """the same scenario on the library's NEON branches and on its branches without vector instructions"""
    return [{"scenario": scenario, "config": c, "quick": n} for c in "ns"]


HIST = ("One run is a seeded random history of operations on up to three BVHs (build, rebuild, copy, move, swap, query, traverse, destroy, "
        "stack-cursor shift) with seeded refused allocations, throwing callbacks, heap reuse and floating-point modes. ")
MEM = ["libstdc++'s container code inlined into the library's translation units is trusted to be what users link"]

PARTS = {
    "C01": {"parts": bvh(40000) + other("bvh", 15000), "thorough_factor": 60, "assumptions": MEM,
            "rule": HIST + "Non-trivial: at least one build succeeded and its whole tree was compared with the reference.",
            "note": "Every node and leaf of every BVH is compared, after every operation, with boxes recomputed independently from the caller's input; any crash, foreign access, hang or corrupted tree is a violation."},
    "C02": {"parts": bvh(40000), "thorough_factor": 60, "assumptions": MEM,
            "rule": HIST + "Non-trivial: at least one build or copy succeeded and was compared byte for byte with a freshly built twin.",
            "note": "Each rebuild is compared byte for byte with a brand-new BVH built from the same arguments in other heap memory; copies are re-checked after later operations on either."},
    "C03": {"parts": bvh(40000), "thorough_factor": 60, "assumptions": MEM,
            "rule": HIST + "Fault rate on builds and copies is raised; each failed operation is followed by inspection, queries and retries. Non-trivial: at least one comparison was made.",
            "note": "Every allocation point of a sampled rebuild or copy can be refused (n-th, from n-th on, by size, twice); afterwards the object must be unchanged or empty, usable, and a retry must succeed exactly."},
    "C04": {"parts": bvh(40000) + other("bvh", 15000), "thorough_factor": 60, "assumptions": MEM + ["boxes within rounding distance of a plane count as undecided"],
            "rule": HIST + "Non-trivial: at least one query result was compared with the reference.",
            "note": "Results are compared with a double-precision reference walk over the same tree; exact on lattice scenes, with a rounding margin otherwise."},
    "C05": {"parts": bvh(40000), "thorough_factor": 60, "assumptions": MEM,
            "rule": HIST + "Non-trivial: at least one traversal was compared with the reference.",
            "note": "The recorded callback sequence is checked against the tree; aborts by exception or refused allocation at any callback or allocation, nested queries, and the operation after the abort are included."},
    "C06": {"parts": [{"scenario": "bvh", "config": c, "quick": 9000} for c in "abc"], "thorough_factor": 60, "assumptions": MEM + ["interleavings are sequentially consistent at memory-access granularity; weaker-memory effects are covered only through the race check"],
            "rule": "One run builds BVHs, then lets 2-5 simulated threads query and traverse them at once under a seeded scheduler that can preempt or stall a thread at any memory access, with refused allocations. Non-trivial: at least one parallel phase ran with results compared.",
            "note": "Every result is compared with the result the same call gives alone; every pair of conflicting accesses by unordered threads is reported."},
    "C10": {"parts": bvh(32000) + [{"scenario": "packed", "config": c, "quick": 16000} for c in "abc"], "thorough_factor": 60, "assumptions": MEM,
            "rule": HIST + "Other runs are histories on four packed vectors. The whole history is run twice in one process and the live heap compared. Non-trivial: at least one build or vector operation ran.",
            "note": "All library accesses are checked against the live simulated blocks with redzones and freed-memory quarantine; leaked bytes after destruction of all objects are counted."},
    "C07": {"parts": [{"scenario": "values", "config": "a", "quick": 50000}, {"scenario": "values", "config": "b", "quick": 50000}, {"scenario": "values", "config": "c", "quick": 40000}],
            "thorough_factor": 40,
            "assumptions": ["interleavings are sequentially consistent at memory-access granularity", "the result a function gives alone in a fresh process is taken as its result"],
            "rule": "One run calls a seeded selection of about 650 functions from 2-5 simulated threads at once in a process where none of them was called before; the scheduler can preempt or stall a thread at any memory access. Non-trivial: at least one function was called by two threads at once and its results compared.",
            "note": "Each result is compared byte for byte with the same call made alone in another fresh process image; conflicting unordered accesses (a cache, counter or lazily filled table that is not a guarded static) are reported as races."},
    "C08": {"parts": [{"scenario": "clock", "config": c, "quick": 90000} for c in "abc"] + other("clock", 30000), "thorough_factor": 80,
            "assumptions": ["the closed form b + (a - b) f^T in double precision is the intended result"],
            "rule": "One run splits up to 25 simulated seconds into frames by a seeded clock (steady, jittered, stalled, bursts of tiny frames, zero-length frames), switching rounding and flush modes between frames, and smooths 14 values with the five lerpDelta forms. Non-trivial: at least one frame ran and was compared.",
            "note": "After every frame all values are compared with the closed form for the elapsed time; overshoot and zero frames are checked per frame."},
    "C12": {"parts": [{"scenario": "clock", "config": c, "quick": 80000} for c in "abc"] + other("clock", 30000), "thorough_factor": 80,
            "assumptions": ["double-precision quaternion and matrix references follow the column-vector, Hamilton conventions the library documents"],
            "rule": "One run advances thirteen quaternions, matrices and vectors, and a pose given by three angles and a size, for up to 150 frames under a seeded frame clock (jitter, stalls of seconds, bursts, zero frames) with changing targets, velocities and rounding modes. Non-trivial: at least one frame ran and was compared.",
            "note": "After every frame each state is compared with the closed form for the elapsed time in double precision, within an allowance that grows with the number of frames."},
    "C09": {"parts": [{"scenario": "packed", "config": c, "quick": 45000} for c in "abc"], "thorough_factor": 60, "assumptions": MEM,
            "rule": "One run is a seeded random history of operations on four packed vectors of one element width (construct, resize, set, get, copy, move, swap, clear, reserve, shrink, append, impossible sizes) with refused allocations, heap reuse with garbage, and phases where three simulated threads change their own vectors while reading and copying a shared one. Non-trivial: at least one element was compared with the array model.",
            "note": "After every operation every element of every vector is read back and compared with an array model; elements left behind by a shrink are unspecified until set."},
    "C11": {"parts": [{"scenario": "text", "config": c, "quick": 40000} for c in "abc"], "thorough_factor": 60,
            "assumptions": ["damaged text that still starts with a number may give that number", "the C library's strtoul and vsnprintf run real but uninstrumented"],
            "rule": "One run is a seeded sequence of values printed by the library into simulated storage and read back, with refused allocations while printing or reading, storage that flips, truncates, tears, loses or inserts characters, and phases where 2-4 simulated threads convert at once. Non-trivial: at least one printed text or read value was compared with the reference.",
            "note": "Printed text is compared with an independent formatter, read values with an independent parser of what storage held; termination, leaks, garbage accepted as a number and rejected well-formed text are violations; each failed conversion is retried."},
    "C13": {"parts": [{"scenario": "flight", "config": "a", "quick": 16000}, {"scenario": "flight", "config": "b", "quick": 13000}, {"scenario": "flight", "config": "c", "quick": 16000}] + other("flight", 6000), "thorough_factor": 60,
            "assumptions": ["a point counts as inside the view volume only when it is inside by more than a rounding margin (3e-5 of the distances involved; wider at the far plane of the non-reversed projection)", "the application computes world boxes from the library's model matrix and the eight corners"],
            "rule": "One run flies four cameras (seven ways to derive the view, five projections) through up to 48 moving oriented boxes for up to 10 frames of a seeded clock, with rebuilds that run out of memory, stale boxes, culling by query, by traversal and by box, and frames in which 2-4 simulated threads cull at once. Half of the objects hover with one corner just inside a plane of the view volume. Non-trivial: at least one visible object was checked.",
            "note": "The view volume and the objects are known in double precision from what the application asked for, not from the library's matrices."},
    "C14": {"parts": [{"scenario": "pick", "config": c, "quick": 20000} for c in "abc"] + other("pick", 8000), "thorough_factor": 60,
            "assumptions": ["an answer within rounding distance of the boundary counts as undecided", "triangles are not slivers (area above 0.15 of the squared longest side)"],
            "rule": "One run moves up to 40 boxes and 40 triangles for up to 6 frames of a seeded clock, rebuilds two BVHs (which can run out of memory, leaving frames without one), and asks seeded spatial questions through the library's traversal or the application's own walk, aborting some of them and repeating them, with frames in which 2-4 simulated threads ask at once. Non-trivial: at least one answer was compared with the reference.",
            "note": "Each answer is compared with a brute-force double-precision reference over all objects, positioned by the application and not by the library; a third of the scenes are on an integer lattice, where touching and edge cases are common."},
    "C15": {"parts": [{"scenario": "image", "config": c, "quick": 20000} for c in "abc"] + other("image", 8000), "thorough_factor": 60,
            "assumptions": ["an edit whose exact result is within 0.05 levels of a rounding boundary may go either way", "sRGB, XYZ (D65) and Yxy as published"],
            "rule": "One run reworks a picture of 64 colors up to 15 times through a seeded sequence of 14 conversions and 4 edits, in tiles, with crashes, torn tile writes redone from a journal, refused allocations while going through text or building a palette, floating-point modes and passes made by 2-4 simulated threads at once. Non-trivial: at least one tile was compared.",
            "note": "Every pixel is compared after every pass: exactly for passes that change nothing, with double-precision formulas for edits and measurements."},
    "C16": {"parts": [{"scenario": "bake", "config": c, "quick": 25000} for c in "abc"] + other("bake", 10000), "thorough_factor": 60,
            "assumptions": ["coefficients follow the real spherical harmonics the library's shader constants imply", "deringing is checked for irradiance of non-negative light"],
            "rule": "One run bakes a seeded sky (ambient light and lamps of any sharpness, some symmetric or dark) on a cubemap of 2 to 12 texels a side in up to 36 units by sequential and parallel simulated workers that can die or leave half-written results, merges in seeded order, derings, and turns the sky for up to 20 frames of a seeded clock; other operations draw specular samples and check single texels. Non-trivial: at least one result was compared.",
            "note": "All results are compared with the same integrals and published formulas in double precision over the harness's own cubemap geometry; redone units must be bit-identical."},
}
REP = ("One run is a log of up to 40 seeded operations executed by four replicas (SIMD; plain vectors of 4, 3 and 2) that receive it with delays, loss and "
       "retransmission, duplicates and reordering, crash and restart from snapshots at seeded points, and execute blocks of it on parallel simulated threads "
       "under seeded preemption and rounding modes. Non-trivial: at least one operation was executed and compared.")
REP_NOTE = ("Every outcome on every replica is compared component by component with a double-precision or integer reference of the operation, every "
            "re-execution with the bits it gave before, and all registers with the agreed state. ")


def replica(note, assumptions):
    return {"parts": [{"scenario": "replica", "config": c, "quick": 8000} for c in "abcd"] + other("replica", 4000), "thorough_factor": 60, "rule": REP, "note": REP_NOTE + note, "assumptions": assumptions}


ROUND = "tolerances are a small multiple of float rounding of the terms added up, four times that in other rounding modes"
PARTS["C20"] = replica("The operation mix favours vector operations.", [ROUND, "integers are kept where their products do not overflow"])
PARTS["C21"] = replica("The operation mix favours matrices, quaternions and transforms.", [ROUND, "inverses are compared only where the matrix is well conditioned"])
PARTS["C24"] = replica("The operation mix favours elementary functions.", [ROUND, "error bounds are a few units in the last place (for the fast power, growing with the size of the exponent it takes)", "angles up to about a thousand turns"])
PARTS["C25"] = replica("The operation mix favours encodings, conversions and unsigned integers.", ["conversions from float are checked where the value fits the integer type"])
PARTS["C26"] = {"parts": [{"scenario": "keys", "config": c, "quick": 20000} for c in "abc"] + other("keys", 8000), "thorough_factor": 60,
                "assumptions": ["catalogs are std::map and sorted arrays; boxes are finite with W components zero"],
                "rule": "One run draws up to 40 keys of one of 16 types, most of them differing from another in a single word, byte or bit, and works on two catalogs through up to 40 seeded operations (insert, erase, look up, copy, merge, range, sort, rebuild from a shuffled journal after a crash) with refused allocations and phases in which 2-4 simulated threads search at once. Non-trivial: at least one catalog, look-up or order was compared.",
                "note": "After every operation both catalogs are compared with a model that knows keys only by their bytes; the order of all pairs of keys is checked to be strict, total and the same for SIMD and plain types."}
PARTS["C27"] = {"parts": bvh(30000) + other("bvh", 12000), "thorough_factor": 60, "assumptions": MEM + ["the cost of a tree is estimated from the surface areas of its boxes, as is usual; scenes whose objects differ only by rounding are not judged"],
                "rule": HIST + "Non-trivial: at least one operation ran; the probe quality_judged counts the trees compared with the reference.",
                "note": "The surface-area cost of every tree is compared with that of a hierarchy the harness makes by halving the same scene (at most one and a half times it plus one visit of the whole scene; the worst seen is 1.4 times), no leaf of eight or more objects costs three times what halving it would (the worst seen is 1.7), scenes come in units down to 2^-31, and boxes are rebuilt with other values in their unused components, which must give the same tree byte for byte."}
