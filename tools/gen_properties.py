#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

BVH = ["include/math/bvh.hpp", "source/bvh.cpp", "include/math/aabb.hpp"]
prop("C01", "BVH is a complete, tight tree after any history",
 "After any sequence of builds, rebuilds (triangle or AABB input, 16- or 32-bit indices, supplied or computed centroids), copies, moves, queries and aborted or failed operations, a non-empty BVH is a single tree rooted at its first node whose leaves together list every primitive of the last successful build exactly once. The root keeps the caller's root box, and every other node's box is exactly the smallest box around the primitives listed beneath it. Centroids that a build computes itself are those of its primitives. Every build terminates.",
 ["histories", "inputs", "fault_sequences"], "every history of build/rebuild/copy/move/query operations on every scene, including degenerate scenes (coincident, one-ulp-apart, denormal, infinite-extent), with allocation faults anywhere in the history",
 "test-aabb and friends build no BVH at all; a unit test could only sample a few scenes on a fresh object, not histories in which an object is reused after larger, smaller, aborted or failed builds.",
 BVH, [("binned SAH split, in-place partition and bottom-up box fit in both recreate overloads", "source/bvh.cpp Bvh::recreate"), ("nodes/primitives resized before and trimmed after the build", "source/bvh.cpp Bvh::recreate")],
 [("node array", "tree nodes, count and first-primitive/left-child packed in the box W lanes", "include/math/bvh.hpp Bvh::Node"), ("primitive array", "permutation of primitive ids", "include/math/bvh.hpp Bvh::primitives")],
 ["Bvh::getNodes", "Bvh::getPrimitives"])
prop("C02", "BVH rebuild result depends only on its arguments",
 "Rebuilding an existing BVH yields exactly the nodes and primitive order that building a brand-new BVH from the same arguments yields, whatever the object held or suffered before, whatever heap memory it is handed, and also when the root box or centroids passed in are the object's own. A copy of a BVH is equal to the original and stays independent of it under later rebuilds, moves or destruction of either.",
 ["histories", "inputs", "fault_sequences"], "every history of an object before the rebuild (sizes growing and shrinking, aborted traversals, failed rebuilds, copies, moves) and every heap content/placement",
 "needs arbitrary object histories and heap states; tests always start from fresh objects on a quiet heap.",
 BVH, [("recreate overwrites every field it later reads", "source/bvh.cpp Bvh::recreate"), ("implicit copy/move of the containers", "include/math/bvh.hpp struct Bvh")],
 None, ["Bvh::getNodes", "Bvh::getPrimitives"])
prop("C03", "BVH build that runs out of memory leaves a usable object",
 "When a rebuild or copy of a BVH fails because memory runs out, the failure is reported as an exception and the object is left either with its complete previous contents or empty. Queries and traversals on it afterwards terminate and are consistent with that state, and retrying the operation once memory is available gives the same result as if it had never failed.",
 ["fault_sequences", "histories", "inputs"], "every allocation failure point (single, repeated, sustained, by size) inside every build, rebuild, copy or assignment, at any point in the object's history",
 "no test injects an allocation failure; the failure points form a history-dependent space.",
 BVH, [("allocation of nodes, primitives, centroids and the node stack", "source/bvh.cpp Bvh::recreate"), ("copy of the containers", "include/math/bvh.hpp struct Bvh")],
 None, ["std::bad_alloc escaping recreate / copy", "Bvh::getNodes", "Bvh::collectInFrustum", "Bvh::traverse"])
prop("C04", "Frustum query returns exactly the potentially visible leaves",
 "A frustum query on a BVH returns each primitive at most once, and returns precisely the primitives of those leaves for which neither the leaf's box nor any ancestor's box lies wholly behind one of the planes, so it never drops a primitive whose box is not behind a plane. The result is the same with the built-in or a caller-supplied node stack and whatever happened to the object before. A query that fails for lack of memory leaves nothing behind that changes a later operation.",
 ["histories", "inputs", "fault_sequences"], "every tree, plane set, plane count, stack choice and stack state, object history, and allocation failure point inside a query",
 "tests call isBehindFrustum on one box at most; they do not run queries on trees, with reused stacks, across rebuilds or with failing allocations.",
 BVH + ["include/math/plane.hpp"], [("stack-driven descent with per-node plane test", "source/bvh.cpp Bvh::collectInFrustum"), ("p-vertex plane test", "include/math/aabb.hpp isBehindFrustum")],
 [("node stack", "pending right children, must be empty between operations", "include/math/bvh.hpp Bvh::nodeStack")], ["Bvh::collectInFrustum return value and output array"])
prop("C05", "BVH traversal visits what the callbacks allow and survives aborts",
 "A traversal asks about each node at most once and only after its parent was accepted, and reports exactly the leaves which, together with their whole ancestor chain, were accepted. If a callback throws or memory runs out, that failure reaches the caller and the next operation behaves as if the aborted traversal had never run. Callbacks may run queries with their own node stack on the same BVH without disturbing the traversal.",
 ["histories", "inputs", "fault_sequences"], "every tree, accept/reject decision pattern, abort point (callback exception or allocation failure), nested query, and history before and after",
 "no test traverses a BVH; abort points and what follows them form an unbounded history space.",
 BVH, [("stack-driven descent with callbacks", "include/math/bvh.hpp Bvh::traverse")],
 [("node stack", "pending right children", "include/math/bvh.hpp Bvh::nodeStack")], ["callback call sequence", "exceptions leaving Bvh::traverse"])
prop("C06", "Concurrent queries on one BVH are race-free and exact",
 "Any number of threads may query one BVH at the same time, each with its own node stack, while at most one thread uses the built-in stack; each gets exactly the result it would get alone, under every interleaving and in spite of stalls or failed allocations in other threads. Such queries never perform conflicting unsynchronised memory accesses.",
 ["schedules", "fault_sequences", "inputs"], "every interleaving, at the granularity of single memory accesses, of concurrent queries on every tree, with stalled threads and per-thread allocation failures, between rebuild phases",
 "tests are single-threaded; the outcome depends on the interleaving.",
 BVH, [("caller-supplied node stack parameter", "source/bvh.cpp Bvh::collectInFrustum")],
 None, ["memory accesses of Bvh::collectInFrustum / traverse", "query results per thread"])
prop("C07", "Value-type functions are re-entrant, including on first use",
 "The library's value-type functions (vectors, matrices, quaternions, angles, color and tone mapping, spherical harmonics, image-based-lighting and BRDF helpers, planes, boxes, spheres, rays, triangles, projections, versions) may be called from any number of threads at once, including their very first call in the process. Each call's result depends only on its arguments, never on other threads, on earlier calls, or on when it is interrupted; and such calls never perform conflicting unsynchronised memory accesses.",
 ["schedules", "histories"], "every interleaving (single-access granularity) of first and later calls from several threads, and every order in which a thread makes its calls",
 "tests are single-threaded, and a first use happens only once per process.",
 ["include/math/color-space.hpp", "include/math/quaternion.hpp", "include/math/sh.hpp", "include/math/ibl.hpp", "include/math/brdf.hpp", "include/math/color.hpp", "include/math/vector/float.hpp", "include/math/matrix/float.hpp", "include/math/matrix/transform.hpp", "source/aabb.cpp"],
 [("thread-safe initialisation of function-local constants", "include/math/color-space.hpp rgbToSrgb/srgbToRgb/rgbToXyz/xyzToRgb; include/math/quaternion.hpp conjugate"), ("functions otherwise keep no state", "all of include/math")],
 None, ["memory accesses and bitwise results per call"])
prop("C08", "lerpDelta smoothing is independent of the frame rate",
 "Smoothing a value towards a target with lerpDelta over a span of time gives, up to rounding, the same value however that span is split into frames, for every supported scalar and vector form and every factor in [0,1]. It never overshoots the target, and a zero-length frame changes nothing.",
 ["schedules", "inputs"], "every simulated clock history (jitter, stalls, bursts, zero-length and very long frames) covering the same total time, for all forms, factors, starts and targets",
 "a test calls it once with one delta; the claim is about all frame-time sequences.",
 ["include/math/common.hpp", "include/math/vector/float.hpp", "include/math/simd/vector/float.hpp"],
 [("exponential interpolation 1-pow(f,dt)", "include/math/common.hpp lerpDelta; include/math/vector/float.hpp lerpDelta; include/math/simd/vector/float.hpp lerpDelta")],
 None, ["return value of lerpDelta after each frame"])
prop("C09", "Packed vectors behave as arrays under any history and failure",
 "A packed vector of 1-, 2- or 4-bit elements behaves as an array under any history of construction, resize, set, get, copy, move, swap and assignment: a get returns the last value set at that index, elements kept by a resize keep their values, and whole new bytes read as zero. Copies are independent of the original, and none of this is disturbed when an operation fails for lack of memory.",
 ["histories", "fault_sequences", "inputs"], "every operation history over several packed vectors of all element widths, with allocation failure at any point",
 "no test touches packed vectors; aliasing after copies and moves shows only in multi-step histories.",
 ["include/math/packed-vector.hpp"], [("bit packing over a byte vector", "include/math/packed-vector.hpp PackedVector::get/set/resize")],
 [("byte storage", "packed elements", "include/math/packed-vector.hpp")], ["PackedVector::get", "size of the byte storage"])
prop("C10", "BVH and containers never leak or touch foreign memory",
 "Whatever the history of builds, queries, traversals, copies, moves and packed-vector operations, with or without failed allocations and aborted callbacks, the library frees everything it allocated once the objects are destroyed. It never reads or writes outside the arrays it was given and the memory it owns, and never uses memory after freeing it.",
 ["histories", "fault_sequences", "inputs"], "every operation history and fault sequence, every scene shape (strides, index widths, exact-size caller buffers), every heap placement",
 "an out-of-bounds access or leak need not fail a test, and failure paths are never executed by tests.",
 BVH + ["include/math/packed-vector.hpp"], [("containers own all memory", "include/math/bvh.hpp struct Bvh"), ("index arithmetic in builds and queries", "source/bvh.cpp")],
 None, ["every memory access made by library code", "live bytes after destruction"])
prop("C11", "Text conversions give the right text or an error, never a crash",
 "Converting integers, vectors, colors and versions to text and hexadecimal, and parsing hexadecimal text and colors back, either gives the correct value (parsing what was printed gives back the original) or reports failure by exception or return value. When memory runs out during a conversion, or the text was damaged in storage, the process is never terminated and no wrong value is returned for well-formed text.",
 ["fault_sequences", "inputs", "histories"], "every value, every allocation failure point inside a conversion, every same-length corruption of stored text",
 "tests do not inject allocation failures or corrupt text.",
 ["include/math/hex.hpp", "include/math/color.hpp", "include/math/version.hpp", "include/math/vector/float.hpp", "include/math/vector/int.hpp", "include/math/vector/uint.hpp"],
 [("hex formatting and parsing", "include/math/hex.hpp"), ("color parsing", "include/math/color.hpp"), ("string building", "toString / toString3 / toString4 functions")],
 None, ["returned strings and values", "exceptions"])
prop("C12", "Incremental pose updates do not depend on how time is split",
 "Advancing a pose frame by frame with the quaternion, matrix and transform functions (accumulating rotations, translating and scaling matrices, rotating vectors, spherical interpolation towards a target, angles about the three axes, model matrices, round trips between quaternion, matrix and angle form) reaches, up to accumulated rounding, the pose given by the closed form for the total elapsed time. This holds however that time is split into frames.",
 ["schedules", "inputs"], "every simulated clock history (jitter, stalls, many tiny frames, few long ones) of the same total time; every axis, rate, pose and smoothing factor",
 "tests compose one or two fixed transforms; the claim ranges over all frame sequences.",
 ["include/math/quaternion.hpp", "include/math/matrix/transform.hpp", "include/math/matrix/float.hpp", "include/math/simd/matrix/float.hpp"],
 [("quaternion product, slerp, axis-angle construction", "include/math/quaternion.hpp"), ("translate/scale/rotate/calcModel", "include/math/matrix/transform.hpp")],
 None, ["poses after each frame"])
prop("C13", "No visible object is ever culled in a simulated flight",
 "In an application loop that moves a camera and objects, derives the frustum planes from the camera's view and projection matrices, rebuilds the BVH as objects move, and culls by BVH query or by testing each object's oriented box, an object with a point inside the view volume (by more than rounding) is never culled in any frame, and an object that lies wholly outside one of the six planes is culled by its box. This holds whatever the frame timing, the projection used, the rebuilds that failed and were retried, and the threads that issue the queries.",
 ["schedules", "histories", "fault_sequences", "inputs"], "every camera path, projection (perspective and orthographic forms), object motion, frame-time history, rebuild failure and retry pattern, and query-thread interleaving",
 "tests check single functions on fixed values; culling correctness needs the composition of the whole pipeline across frames.",
 ["include/math/matrix/projection.hpp", "include/math/matrix/transform.hpp", "include/math/plane.hpp", "include/math/aabb.hpp", "source/bvh.cpp", "source/aabb.cpp"],
 [("plane extraction from view-projection", "include/math/plane.hpp extractFrustumPlanes"), ("box/frustum tests", "include/math/aabb.hpp isBehindFrustum"), ("BVH query", "source/bvh.cpp Bvh::collectInFrustum")],
 None, ["set of objects reported visible per frame"])
prop("C14", "Spatial questions get the true answer in every frame",
 "An application that moves boxes and a triangle mesh, rebuilds its BVHs, and asks which object a ray hits first, what a sphere, box or region touches or contains, which triangle is nearest, which triangles a voxel overlaps and where a line meets a surface gets, in every frame, the answer that checking every object exactly would give, up to rounding; boxes include their faces, so a ray running along a face of a box meets it. The question may be answered by walking the BVH with the library's ray, box, sphere, plane and triangle functions on its nodes, or without a BVH after a rebuild ran out of memory, and it may have been aborted, repeated, or asked by several threads at once. Boxes, lines, triangles, rays, planes and spheres that are moved, scaled, resized or reset through their operators are the shapes those operations describe, and compare equal only to themselves.",
 ["schedules", "histories", "fault_sequences", "inputs"], "every scene and motion, frame-time history, rebuild and query failure, abort point, thread interleaving and question",
 "tests call a few predicates on one or two positions; a wrong answer needs a predicate applied to BVH nodes, an axis-parallel ray, or a box on one particular side.",
 ["include/math/aabb.hpp", "source/aabb.cpp", "include/math/ray.hpp", "include/math/triangle.hpp", "include/math/sphere.hpp", "include/math/plane.hpp", "include/math/line.hpp", "include/math/bvh.hpp"],
 [("intersection, containment and closest-point functions", "include/math/aabb.hpp raycast2/isInside/isIntersected; source/aabb.cpp isAabbIntersected"), ("tree walk", "include/math/bvh.hpp Bvh::traverse"), ("nodes keep links in the W components of their boxes", "include/math/bvh.hpp union Node")],
 None, ["the set or object reported for each question"])
prop("C15", "Stored pictures do not drift however often they are reworked",
 "A picture of 8-bit colors that an application opens, converts and stores again and again keeps every pixel exactly, whichever form the pass goes through (normalized, channel by channel, linear, XYZ, Yxy, binary or hexadecimal text) and however often it is made. Edits made in normalized or linear form store the nearest level of the exact result, luminance and chromaticity match the published formulas, and palettes ordered by binary value count and find every color. Crashes, torn tile writes redone from a journal, refused allocations and parallel workers change nothing.",
 ["histories", "fault_sequences", "schedules", "inputs"], "every picture, sequence of conversions and edits over any number of generations, crash and redo point, allocation failure, and worker interleaving",
 "no test touches colors; a loss of one level shows only for some values, and a slow drift only over generations.",
 ["include/math/color.hpp", "include/math/color-space.hpp", "include/math/hex.hpp"],
 [("rounding to 8 bits", "include/math/color.hpp Color constructors and setNorm"), ("transfer functions and matrices", "include/math/color-space.hpp")],
 [("8-bit color", "the pixel of the picture", "include/math/color.hpp struct Color")], ["stored pixels after each pass"])
prop("C16", "Baked lighting is the light of the sky it was baked from",
 "Lighting baked from a cubemap by workers that split it into units gives the spherical-harmonic coefficients of that sky: texel directions and solid angles are those of the cubemap, the coefficients do not depend on how the work was split, repeated after a crash, ordered or run in parallel, deringing leaves no negative light where a window can avoid it and flattens no more than needed, whatever the light, and turning the sky frame by frame turns the light with it. Specular samples follow the published distribution for every roughness.",
 ["histories", "fault_sequences", "schedules", "inputs"], "every sky, cubemap size, split, crash and redo sequence, merge order, interleaving, frame history of a turning sky, roughness and sample count",
 "no test touches lighting; the baked result needs the composition of all functions over a whole cubemap, and errors in rotation or deringing only show for some skies.",
 ["include/math/sh.hpp", "include/math/ibl.hpp", "include/math/brdf.hpp"],
 [("projection and solid angle", "include/math/sh.hpp computeShBasis, calcSolidAngle; include/math/ibl.hpp"), ("rotation", "include/math/sh.hpp rotateSh3Bands"), ("deringing", "include/math/sh.hpp deringingSH, shmin"), ("sampling", "include/math/brdf.hpp")],
 None, ["coefficients after baking, deringing and turning", "sample directions"])

SIMD = ["include/math/simd", "include/math/vector", "include/math/matrix", "include/math/quaternion.hpp"]
prop("C20", "Replicas built on SIMD and on plain types agree",
 "Replicas of one program that execute the same log of operations, some with the SIMD types and others with the plain vectors of four, three or two components, reach the same results whatever the instruction set they were built for (SSE2, SSE4.1, AVX2, NEON or none). Arithmetic, rounding, geometry and interpolation agree with the exact mathematical result up to rounding; comparisons, selections, named constants, integer operations, shuffles and conversions agree exactly, in every lane and in every form (vector with vector, with a scalar on either side, compound). Where rounding to an integer meets a value exactly half way, either neighbour may be given. Executing an operation again, after a crash, for a duplicated message, in another order of arrival or on another thread, gives the same bits.",
 ["inputs", "histories", "fault_sequences", "schedules", "configurations"], "every log of operations, register contents (including signed zeros, ties, extremes, sign-bit integers), message delay, loss, duplication and reordering, crash and snapshot point, interleaving, rounding mode and instruction set",
 "tests compare a handful of values on one replica; the lanes, operand forms and instruction-set paths that no test calls are most of the library.",
 SIMD, [("parallel implementations per instruction set", "include/math/simd/vector/float.hpp, int.hpp, uint.hpp"), ("plain types", "include/math/vector/float.hpp, int.hpp, uint.hpp")], None, ["the outcome of each operation and the register file of each replica"])
prop("C21", "Matrix, quaternion and transform algebra holds on every replica",
 "On every replica, with SIMD or plain matrices, products, inverses, transposes, element-wise operations and conversions between sizes, quaternion products, inverses and rotations, and building, combining and taking apart transforms give the result of linear algebra over the same numbers, and perspective and orthographic projections map the view volume to the clip volume, up to rounding that grows with the conditioning of the input. Operations executed again after a crash or a duplicated message give the same bits.",
 ["inputs", "histories", "fault_sequences", "schedules", "configurations"], "every log of operations on well-conditioned matrices, transforms and rotations (diagonal, sparse, integer, nearly identical, mirrored), delivery fault, crash point, interleaving and instruction set",
 "tests sample a few matrices, mostly diagonal or identity, where a wrong cofactor or lane does not show.",
 ["include/math/matrix", "include/math/simd/matrix/float.hpp", "include/math/quaternion.hpp"], [("closed-form formulas", "include/math/matrix/float.hpp inverse, transpose; include/math/simd/matrix/float.hpp"), ("transforms", "include/math/matrix/transform.hpp")], None, ["the outcome of each operation and the register file of each replica"])
prop("C24", "Elementary functions stay within their error on every replica",
 "Exponent, logarithm, power, sine and cosine approximations of the SIMD types, and the component-wise elementary functions of the plain types, stay within a small error of the exact function over their documented range, in every lane, on every replica and instruction set. Special arguments (zero, infinity, negative, exponents that overflow or vanish, angles many turns away) give their documented results, and operations executed again after a crash or a duplicated message give the same bits.",
 ["inputs", "histories", "fault_sequences", "schedules", "configurations"], "every argument in range in every lane, log of operations, delivery fault, crash point, interleaving, rounding mode and instruction set",
 "tests sample a few values; an error in range reduction shows only in one quadrant, one sign or one binade.",
 ["include/math/simd/vector/float.hpp", "include/math/vector/float.hpp", "include/math/tone-mapping.hpp", "include/math/common.hpp"], [("polynomial approximations and range reduction", "include/math/simd/vector/float.hpp log, exp, pow, fastPow, sinCos")], None, ["the outcome of each operation"])
prop("C25", "Encodings keep what was stored and order as their parts do",
 "Versions, flag sets, mip sizes, lanes of integer vectors and conversions between signed, unsigned and float vectors give back exactly what was stored on every replica, including values with the top bit set. Versions order as their components order, flag sets combine and test bitwise, unsigned values compare as unsigned, colors compare channel by channel, tests of all or any of a vector's bits look at every bit, mip counts and sizes follow the halving rule. Snapshots written with the library's stores restore exactly after a crash.",
 ["inputs", "histories", "fault_sequences", "schedules", "configurations"], "every component value, log of operations, snapshot and crash point, delivery fault, interleaving and instruction set",
 "tests cover small positive values only; the sign bit, the last lane and carries between components are where encodings go wrong.",
 ["include/math/version.hpp", "include/math/flags.hpp", "include/math/types.hpp", "include/math/vector/uint.hpp", "include/math/vector/int.hpp", "include/math/simd/vector/uint.hpp", "include/math/simd/vector/int.hpp"],
 [("bit encodings", "include/math/version.hpp struct Version; include/math/flags.hpp"), ("lane access, stores and conversions", "include/math/simd/vector/uint.hpp, int.hpp, float.hpp")], None, ["the outcome of each operation and the register file of each replica"])
prop("C26", "Catalogs keyed by value types never lose or confuse a key",
 "An ordered catalog or sorted array keyed by vectors, SIMD vectors and matrices, boxes or colors in their binary order, or by versions in theirs, keeps every different key exactly once and finds it again, whatever the history of insertions, removals, copies, merges, failed allocations, rebuilds from a journal in another order after a crash, and threads that search it at once. Two keys are equal in that order only if all their components are the same, the order never goes round in a circle, the SIMD and plain forms of the same numbers are ordered alike, and whole-number keys, boxes, colors and versions compare equal exactly when all parts do.",
 ["inputs", "histories", "fault_sequences", "schedules"], "every set of keys (neighbours that differ in one lane, byte, bit or sign; zeros, infinities, not-a-numbers), history of catalog operations, refused allocation, crash point, order of the journal, interleaving of look-ups",
 "an order that ignores a component loses keys only in a container that holds two keys which differ just there; the tests never sort or look anything up.",
 ["include/math/vector", "include/math/simd", "include/math/aabb.hpp", "include/math/color.hpp", "include/math/version.hpp"],
 [("binary order", "isBinaryLess in include/math/vector/*.hpp, simd/vector/*.hpp, simd/matrix/float.hpp, aabb.hpp, color.hpp"), ("version order", "include/math/version.hpp operator<")], None, ["size, iteration, look-up and ranges of the catalogs; the sorted arrays; the order of every pair of keys"])
prop("C27", "The hierarchy keeps a query's cost to a small part of the scene",
 "After every successful build in any history of builds, failures, rebuilds, copies and animated scenes, a BVH divides its scene: unless its objects can hardly be told apart in single precision, the number of boxes and objects a small query is expected to look at is at most about that of a hierarchy made by halving the scene along its longest side, whether the scene is spread, clustered, in a row along any axis, flat, of mixed sizes or overlapping, made of boxes or triangles. A scene that can be divided is never left as one big leaf, nor is a part of it, in whatever units it is made, and what the unused fourth components of the boxes hold never changes the tree.",
 ["histories", "fault_sequences", "inputs"], "every scene whose objects differ by more than rounding, history of builds, refused allocation, heap contents, rounding mode and instruction set",
 "a hierarchy that divides badly answers every query correctly and only costs time, so a test of answers never notices; the cost shows only for clustered or uneven scenes or for boxes whose unused components are not zero.",
 ["source/bvh.cpp", "include/math/bvh.hpp", "include/math/aabb.hpp"],
 [("choice of the split plane", "source/bvh.cpp findBestSplitPlane, calcArea, Bin"), ("when to stop dividing", "source/bvh.cpp Bvh::recreate")],
 [("bin counters", "how many objects a bin holds", "source/bvh.cpp struct Bin")], ["nodes and leaves of the tree after each build"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
