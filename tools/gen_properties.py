#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

ALL = ["src/float.rs","src/f32ext.rs","src/float/","src/vector.rs","src/vector/","src/quaternion.rs","src/statistics/"]
V2, V3 = "src/vector/vector2d.rs", "src/vector/vector3d.rs"

p("C01","Results depend only on arguments, under any preemption and call history",
  "Every float, vector, quaternion and statistics operation gives the same result for the same arguments (a NaN counts as equal to any NaN, a panic as equal to a panic) no matter how many calls, or which calls, were made before it. The result is also the same wherever, in the middle of the call, an interrupt handler or another thread runs other calls of the library, and when some other context was stopped for ever in the middle of a call.",
  ["schedules","histories","fault_sequences"],
  "for every operation and argument tuple, every earlier call history, every interleaving of contexts at instruction granularity, every point at which a context is abandoned",
  "The tests call each function a few times, from one thread, never interrupted; no test repeats a call after another history or preempts one.",
  ALL, [("all operations are functions of their by-value arguments; the crate keeps no mutable static state","src/lib.rs (forbid(unsafe_code), no_std)")],
  observe=["return values of the public operations"], hook="none in /repo: the crate is compiled with LLVM's sanitizer-coverage callbacks, which give a scheduling point before every basic block, load and store")
p("C02","Every call ends within a bounded number of its own steps",
  "Every operation, for any argument, ends (returns or panics) within a bounded number of its own execution steps whatever the other contexts do meanwhile, including being stopped for ever in the middle of a library call or interrupting it at any rate. No call waits for, spins on, retries because of, or blocks on another context. Operations over a slice or stream take steps at most proportional to the number of elements.",
  ["schedules","fault_sequences","inputs"],
  "for every operation and argument tuple, every schedule of the other contexts, every point at which a context is stalled or killed",
  "Tests run undisturbed with small arguments; none stalls a context in mid-call, measures steps, or uses extreme exponents.",
  ALL, [("loops are bounded by argument bit width or element count","src/float/powi.rs, src/float/exp.rs, src/statistics/"),("no locks, no shared state","src/lib.rs")],
  observe=["own steps per call, counted by the simulator's step clock"], hook="sanitizer-coverage callbacks as C01")
p("C03","In-place updates are all-or-nothing when component arithmetic fails",
  "When an in-place operator (+=, -=, *=, /=) on a vector, quaternion or float wrapper fails because the arithmetic of some component fails (overflow, division fault, or a caller-defined component type that panics), the target still holds exactly its old value, readable after the unwinding. When the operator returns, every component holds the component-wise result, and a failure is never swallowed.",
  ["fault_sequences","crash_points","histories"],
  "for every in-place operator, component type, operand pair and failing component operation, and every history of operators on shared accumulators by several contexts, of which any may fail at any component operation",
  "The tests contain one in-place division and three quaternion assignments, none of which fails; no test injects a failing component or inspects the target after a panic.",
  [V2,V3,"src/quaternion.rs","src/float.rs"],
  [("compute the new value first, then assign the whole struct","AddAssign/SubAssign/MulAssign/DivAssign impls in src/vector/vector2d.rs and src/vector/vector3d.rs")],
  observe=["the target value after catch_unwind"])
p("C04","A vector built from a stream takes exactly its components or fails",
  "Building a 2D or 3D vector from an iterator or slice succeeds if and only if the source delivers exactly as many components as the vector has axes before its first end-of-stream, and then holds them in delivery order. A source that ends early, has more items, or fails in the middle makes the construction panic rather than return a padded, truncated or reordered vector, whatever size the source announced. At most one item beyond the number of axes is ever requested, so an endless source does no harm.",
  ["fault_sequences","crash_points","inputs"],
  "for every scripted source (short, long, endless, failing at any item, resuming after its end, announcing any size hint) and every interleaving of several constructions",
  "No unit test builds a vector from a faulty, short, long or endless iterator; the only uses are exact-length internal ones.",
  [V2,V3,"src/vector.rs"],
  [("one next() per axis with a hard failure on None, then a check that the source is exhausted","FromIterator impls in src/vector/vector2d.rs, src/vector/vector3d.rs"),("from_slice goes through from_iter","src/vector.rs")],
  observe=["outcome of collect()/from_iter/from_slice","number of requests the source saw"])
p("C05","Streaming reductions cover exactly the samples delivered before the end",
  "Mean, sum and product over an iterator, and variance and standard deviation over a slice, are computed from exactly the samples the source delivered before its first end-of-stream, each once, and agree with the exact value within floating-point rounding (standard deviation: within 7%). A NaN or infinite sample propagates as in IEEE arithmetic. The reduction takes nothing from the source after that first end, does not rely on the announced size, and when the source or a sample conversion fails it fails too instead of returning a partial result.",
  ["fault_sequences","crash_points","schedules"],
  "for every scripted source (end or failure at any item, resumption after the end, any size hint, any non-finite glitch) and every interleaving of concurrent reductions",
  "Each reduction is tested on one three-element array; no test uses a source that fails, ends and resumes, lies about its size, or delivers glitches.",
  ["src/statistics/mean.rs","src/statistics/variance.rs","src/statistics/stddev.rs","src/float.rs",V2,V3],
  [("single pass for-loop / fold over the iterator","src/statistics/mean.rs; Sum and Product impls in src/float.rs, src/vector/vector2d.rs, src/vector/vector3d.rs"),("two-pass variance over the slice","src/statistics/variance.rs")],
  observe=["returned statistic","requests the source saw"])
p("C06","Trimming yields each retained sample exactly once, in order, across faults",
  "A trimmed iterator over a buffer yields, in buffer order and each exactly once, the samples whose distance from the buffer's mean is below the given number of the buffer's standard deviations (default two), and then ends for good. The bounds are those of the whole buffer, fixed when the iterator is made, however slowly, and interleaved with whatever other iterators, it is consumed. If a sample's conversion fails in the middle, the failure surfaces, and continuing the iteration loses at most the sample in flight and repeats none.",
  ["fault_sequences","histories","schedules"],
  "for every buffer, threshold, consumption history (partial, abandoned, resumed after a failure, polled after the end) and interleaving of several iterators",
  "One five-element buffer is drained once, undisturbed.",
  ["src/statistics/trim.rs"],
  [("mean and stddev snapshot at construction; next() filters the underlying slice iterator","src/statistics/trim.rs")],
  state=[("input/mean/stddev/threshold","resumable iteration state","src/statistics/trim.rs Iter")],
  observe=["items returned by next()"])
p("C07","Component iteration visits each axis once, surviving failed accesses",
  "Iterating over a vector's components yields every axis in order, each exactly once, and then ends and stays ended, for the built-in vectors and for caller-defined vector types. If a component access fails, the failure surfaces, the position does not move, and the next attempt delivers that same axis. Copies of a half-consumed iterator continue independently from the same point, and any announced size is consistent with what is delivered.",
  ["fault_sequences","histories","schedules"],
  "for every history of next/clone/skip/size queries/drops over several iterators and every set of failing accesses",
  "The component iterator has no unit test of its own; it is only used internally, drained once, never failing.",
  ["src/vector/iter.rs","src/vector.rs",V2,V3],
  [("position advances only after get() returned a component","src/vector/iter.rs")],
  state=[("position","index of the next axis","src/vector/iter.rs Iter")],
  observe=["items returned by next(), size_hint()"])
p("C08","Text output reports every sink failure and never corrupts what was written",
  "Writing a float wrapper (plain or exponent form) or the debug form of any value type to a text sink either succeeds with the complete text, or reports an error or unwinds when the sink fails. In the failing case the sink has received only a prefix of the complete text and nothing after the failure. The complete text of a float wrapper is that of the float it wraps, and parses back to the same value.",
  ["fault_sequences","crash_points"],
  "for every value, every point at which the sink runs full, fails once, panics, or re-enters the library, and every interleaving of several writers",
  "No unit test formats anything, and no sink ever fails.",
  ["src/float.rs",V2,V3,"src/quaternion.rs"],
  [("write! forwards the sink's Result","Display/LowerExp/UpperExp impls in src/float.rs"),("derived Debug","src/float.rs, src/vector/, src/quaternion.rs")],
  observe=["fmt::Result","bytes the sink accepted"])
p("C09","A run resumed from a checkpoint equals one never interrupted",
  "Exporting a value (vector to array or tuple or component stream, quaternion to array or tuple or components, float wrapper to bits, float or text) and restoring it later gives back the same value bit for bit, and widening an integer vector to a float vector is exact. Hence a computation crashed at any point and resumed from its last checkpoint ends in the same state as one that never crashed. A torn or corrupted checkpoint is rejected with a failure or parse error wherever the corresponding standard conversion rejects it, never restored as a padded or shortened value.",
  ["crash_points","histories","fault_sequences"],
  "for every program over the value types, crash point, checkpoint encoding, and torn or bit-flipped stored checkpoint",
  "The tests round-trip one small-integer tuple and array per type; no test crosses encodings, restores torn data, or uses signed zeros, subnormals or infinities.",
  [V2,V3,"src/quaternion.rs","src/float.rs"],
  [("From/Into array and tuple, to_array, accessors, from_slice","src/vector/, src/quaternion.rs"),("to_bits/from_bits, FromStr, Display, from_str_radix","src/float.rs")],
  observe=["state after restart compared with the uninterrupted twin"])
p("C10","Replicas on different builds never diverge on the same log",
  "Replicas built from the same source with different optimisation levels, with and without overflow and debug checks, and with and without the optional integrations, that apply the same log of operations with NaN-free inputs hold the same state bit for bit (NaN equal to NaN) after every log entry. In particular no float, quaternion or statistics operation panics in one build and returns in another; only overflowing integer vector arithmetic may. This holds under message loss, duplication, delay, reordering, partition, and crash and restart from a checkpoint.",
  ["configurations","histories","fault_sequences","schedules"],
  "for every log, every delivery schedule and fault sequence, across the builds dev, release, size-optimised and release without optional features",
  "The test suite runs one build at a time and compares each result with a tolerance; nothing compares builds with each other, and the test inputs avoid the values where the builds differ.",
  ALL, [("plain IEEE single arithmetic and wrapping-free bit manipulation","src/float/")],
  observe=["state digests of the replicas after each committed entry"])
p("C11","Element-wise transforms call back once per axis and isolate failures",
  "Mapping a closure over a vector calls it exactly once per component, in axis order, and gives the vector of its results; the source vector is unchanged, also when the closure fails at any axis, re-enters the library, or is suspended. A failure in the closure surfaces; no partial result is returned. Normalising, measuring magnitude and measuring distance over caller-defined component types likewise surface any failing conversion and otherwise use each vector's own components only.",
  ["fault_sequences","schedules","crash_points"],
  "for every vector type, closure behaviour (fail at any call, re-enter, yield), and interleaving of several transforms",
  "map is only exercised through normalized() on one vector; no closure fails, is stateful, or re-enters.",
  ["src/vector.rs",V2,V3,"src/vector/iter.rs"],
  [("map collects the mapped component iterator","src/vector.rs Vector::map")],
  observe=["arguments the closure saw","source and result vectors"])
p("C12","Shared totals do not depend on arrival order, batching, or retraction",
  "When several contexts accumulate in-range integer (or exactly representable float) vectors, quaternions or float wrappers into totals, in place or by summing batches by value or by reference, the totals are the same for every arrival order and every split into batches, and equal the exact component-wise sum. Retracting a contribution that was added, at any later time, leaves exactly the other contributions. Scaling commutes with accumulation.",
  ["schedules","histories","fault_sequences"],
  "for every interleaving of contributors, split into batches, set of aborted contributors whose contributions are retracted, and delayed or duplicated-then-retracted delivery",
  "Sum has doc examples with two vectors; += and -= on vectors have no test at all, and no test varies order or batching.",
  [V2,V3,"src/quaternion.rs","src/float.rs"],
  [("component-wise Add/Sub/Mul and fold from the zero vector","src/vector/vector2d.rs, src/vector/vector3d.rs")],
  observe=["totals after quiescence against an exact integer model"])

NA_WHY = "A finite table of sample points (or none) stands for the whole input space."
def na(id,title,statement,files,mech,over=("inputs",),text="for every argument"):
    p(id,title,statement,list(over),text,NA_WHY,files,mech,observe=["return values"])
na("C13","Trigonometric approximations stay within their documented error",
  "For every finite argument of moderate magnitude, sine and cosine differ from the true value by at most about 0.002, tangent by at most 0.6 in its documented range, and arc tangent by at most the documented bound; arc sine and arc cosine are consistent with them. Two-argument arc tangent picks the right quadrant.",
  ["src/float/cos.rs","src/float/sin.rs","src/float/tan.rs","src/float/atan.rs","src/float/atan2.rs","src/float/asin.rs","src/float/acos.rs"],[("parabolic and rational approximations","src/float/")])
na("C14","Roots and reciprocals stay within their documented relative error",
  "For every positive normal argument, square root, inverse square root, fast reciprocal, hypotenuse and refined reciprocal stay within their documented relative deviation of the true value, and the square root of a negative number is NaN.",
  ["src/float/sqrt.rs","src/float/invsqrt.rs","src/float/inv.rs","src/float/recip.rs","src/float/hypot.rs"],[("bit-level first guesses","src/float/")])
na("C15","Exponentials, logarithms and powers approximate their definitions",
  "For every argument whose true result is representable, exponential, logarithms in any base, hyperbolic cosine, real and integer powers stay within a stated relative error, saturate to zero or infinity beyond the range with the right sign, and are monotone up to that error.",
  ["src/float/exp.rs","src/float/ln.rs","src/float/log.rs","src/float/powf.rs","src/float/powi.rs","src/float/cosh.rs"],[("range reduction by exponent, polynomial on the fraction","src/float/")])
na("C16","Rounding functions agree with the exact integer parts",
  "For every float in the range of 32-bit integers, floor, ceiling, round, truncate and fractional part equal the mathematically exact results, and truncated plus fractional part gives back the argument.",
  ["src/float/floor.rs","src/float/ceil.rs","src/float/round.rs","src/float/trunc.rs","src/float/fract.rs"],[("integer casts and mantissa masks","src/float/")])
na("C17","Sign operations are exact bit operations",
  "Absolute value, sign copying and signum change only the sign bit (signum: return exactly one of 1, -1, NaN) for every bit pattern, including zeros, subnormals, infinities and NaN.",
  ["src/float/abs.rs","src/float/copysign.rs","src/float/signum.rs"],[("sign mask","src/float.rs")])
na("C18","Euclidean division reconstructs its dividend",
  "For every pair of finite operands with non-zero divisor, the Euclidean remainder is non-negative and below the divisor's magnitude up to rounding, and quotient times divisor plus remainder gives back the dividend within rounding.",
  ["src/float/div_euclid.rs","src/float/rem_euclid.rs"],[("truncated quotient with sign fix-up","src/float/")])
na("C19","Float operations never panic on any input",
  "No float operation panics or loops for any bit pattern of its arguments, in builds with overflow and debug checks as well as without.",
  ["src/float/"],[("wrapping and saturating integer arithmetic on bit patterns","src/float/")])
na("C20","The float wrapper's arithmetic and ordering mirror the wrapped float",
  "Every arithmetic and comparison operator between wrappers, or between a wrapper and a plain float in either order, gives exactly the plain float's result; constants, parsing and integer conversions do too.",
  ["src/float.rs"],[("operators forward to the inner value","src/float.rs")])
na("C21","Vector operations satisfy the algebra of 2D and 3D space",
  "Dot product is symmetric and bilinear, cross product is antisymmetric and orthogonal to its factors, scalar multiplication commutes, the 2D perpendicular product is the third component of the 3D cross product, and indexing past the last axis fails.",
  ["src/vector/vector2d.rs","src/vector/vector3d.rs","src/vector/commutative.rs"],[("component-wise definitions","src/vector/")])
na("C22","Magnitude, distance and normalisation agree with Euclidean geometry",
  "Magnitude and distance are within the square root's error of the Euclidean ones, squared magnitude equals the dot product with itself, and a normalised non-zero vector has magnitude near one and the same direction.",
  ["src/vector.rs"],[("sum of squares and approximate square root","src/vector.rs")])
na("C23","Quaternion operations satisfy the quaternion algebra",
  "Multiplication is associative and distributes over addition up to rounding, follows the unit multiplication table, conjugation reverses products, the norm is multiplicative, and a quaternion times its inverse is near the identity.",
  ["src/quaternion.rs"],[("component formulas","src/quaternion.rs")])
na("C24","Unit quaternions rotate vectors rigidly",
  "Rotation by a unit quaternion preserves lengths and angles and composes with quaternion multiplication, axis-angle construction rotates by the given angle about the axis, construction from two vectors carries the first direction onto the second, and Euler angles describe the same rotation, all within the approximation errors.",
  ["src/quaternion.rs"],[("rotation matrix form, half-angle construction","src/quaternion.rs")])
na("C25","Absolute value takes data-independent time",
  "Computing an absolute value executes the same instruction sequence for every argument.",
  ["src/float/abs.rs","src/f32ext.rs"],[("single mask operation","src/float/abs.rs")])
na("C26","Every supported feature combination builds without the standard library",
  "Each combination of the optional features that the documentation offers compiles for targets without the standard library and without unsafe code, and enabling a feature never changes the behaviour of items outside it.",
  ["Cargo.toml","src/lib.rs"],[("cfg gates","src/lib.rs")],over=("configurations",),text="for every feature set")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for r in P: f.write(json.dumps(r, ensure_ascii=False)+"\n")
