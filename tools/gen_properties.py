#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

TP = "hwy/contrib/thread_pool/thread_pool.h"
prop("C01", "Parallel-for runs every task exactly once, on a valid exclusive worker",
 "Every call of a thread pool's parallel-for over [begin, end) invokes the closure exactly once for each index in that range and for no other index, whatever the range, the number of threads, the wait mode and the preceding calls on the pool. Each invocation receives a worker index below the pool's reported number of workers, and no two invocations that overlap in time receive the same worker index. When the call returns, all invocations have finished, and no thread touches the closure afterwards.",
 ["schedules", "histories", "inputs"],
 "all interleavings of the calling thread and the workers; all ranges (empty, one, fewer than / equal to / more than workers, not starting at 0, near 2^64); all histories of parallel-for and wait-mode calls; every wait/barrier policy the tuner can select",
 "The tests run each pool on a handful of OS schedules and mostly check sums; double or lost execution needs a particular interleaving of work stealing, barrier and wake, or a particular policy reached only after several calls.",
 [TP, "hwy/auto_tune.h"],
 [("work stealing: atomic reservation of task indices from per-worker ranges", TP+" Tasks::WorkerRunWithStealing"),
  ("fork/join barrier with six policies", TP+" Barrier*"), ("dividing the range among workers", TP+" DivideRangeAmongWorkers")],
 [("per-worker begin/end", "remaining tasks of a worker", TP+" Worker::my_begin_")], ["closure invocations (task, worker, start/finish)"])
prop("C02", "A thread pool never deadlocks, livelocks or loses a wakeup",
 "Every sequence of constructing a pool, running parallel-for loops, changing the wait mode and destroying the pool terminates under every fair schedule, for every number of threads and every way of waiting. This includes spurious and interrupted futex waits, arbitrary delays of starting threads, and destruction immediately after construction. Destruction joins every thread the pool created.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings; all call sequences up to a depth; all futex outcomes (woken, EAGAIN, EINTR, spurious return)",
 "A hang needs one specific interleaving (store of the epoch between a worker's check and its sleep, a barrier counter reset racing with a straggler); a free-running test reaches such schedules rarely and cannot show their absence.",
 [TP, "hwy/contrib/thread_pool/futex.h", "hwy/contrib/thread_pool/spin.h"],
 [("epoch-based wake/wait", TP+" Wait*"), ("two-phase configuration change", TP+" SendConfig"), ("exit through configuration change then join", TP+" ~ThreadPool")],
 [("wait/barrier epochs", "monotonic counters per worker", TP+" Worker::wait_epoch_, barrier_epoch_")], ["termination of every call", "pthread_join of every thread"])
prop("C03", "Parallel-for publishes the caller's writes and the tasks' results",
 "Everything the calling thread wrote before a parallel-for call is visible to every task of that call, and everything the tasks wrote is visible to the caller when the call returns and to the tasks of later calls. This holds under the C++ memory model, not just on strongly ordered CPUs: no execution of the pool's own code or of properly used closures contains a data race. It also holds for the configuration changes the pool makes between calls.",
 ["schedules", "histories"],
 "all interleavings and all values the C++11 memory model lets an atomic load return, over call histories that pass data between caller and tasks",
 "x86 hardware hides weakened memory orders and the existing tests are not run under a race detector; even then only the sampled schedule is judged.",
 [TP, "hwy/contrib/thread_pool/futex.h", "hwy/contrib/thread_pool/spin.h"],
 [("release stores / acquire loads on epochs and barriers", TP+" StoreWaiter, StoreBarrier, UntilReached"), ("acquire/release fences at thread start", TP+" WorkerLifecycle::Init")],
 [], ["plain loads and stores of caller data inside closures"])
prop("C04", "Blocking and spinning waits return exactly when the value changed",
 "Waiting until a 32-bit word differs from a value returns only with a value different from it that the word really held, waiting for equality returns only once the word equals it, and both always return when such a value persists, whether by futex, pause, monitor or user-monitor instructions. Spurious, early or interrupted returns of the kernel or of the monitor instruction never lead to a wrong return, and a wake reaches every waiter. The spin method chosen is always one the processor supports and the caller did not disable.",
 ["schedules", "fault_sequences", "configurations"],
 "all interleavings of 1-3 waiters with storers and wakers; all spurious/interrupted outcomes; all CPUID answers relevant to spin detection",
 "Tests exercise one waiter-waker pair a few times on the CPU at hand, which lacks the monitor instructions; the lost-wakeup window is a few instructions wide.",
 ["hwy/contrib/thread_pool/futex.h", "hwy/contrib/thread_pool/spin.h", "hwy/cache_control.h"],
 [("re-check loop around futex wait", "hwy/contrib/thread_pool/futex.h BlockUntilDifferent"), ("double check between monitor and wait", "hwy/contrib/thread_pool/spin.h"), ("wake all", "hwy/contrib/thread_pool/futex.h WakeAll")],
 [], ["return values of the wait functions", "SYS_futex calls"])
prop("C05", "Auto-tuning terminates and settles on a lowest-cost candidate",
 "Feeding costs to the auto-tuner always ends in a decision after a bounded number of measurements, and until then it only ever proposes candidates it was given that have not been eliminated. The candidate finally reported stays fixed and is one of the given candidates; when each candidate's cost is constant and the costs are clearly separated, it is the cheapest. The circular skip structure and the per-candidate cost estimates behave like their obvious reference models (set of remaining indices in cyclic order; outlier-resistant mean of the samples).",
 ["histories", "inputs"],
 "all numbers of candidates up to a bound, all elimination orders, all cost assignments over a small alphabet, all sequences of calls",
 "The tests use one random cost generator for a few sizes; the elimination logic depends on the relative order of all candidates' costs and on which candidate is current when one is removed.",
 ["hwy/auto_tune.h", "hwy/stats.h", "hwy/robust_statistics.h"],
 [("doubly linked ring of remaining candidates", "hwy/auto_tune.h NextWithSkip"), ("rounds of measurement and skipping of clearly worse candidates", "hwy/auto_tune.h AutoTune::NotifyCost"), ("median-based outlier rejection", "hwy/auto_tune.h CostDistribution")],
 [], ["NextConfig, Best, EstimateCost"])
prop("C06", "Dynamic dispatch always calls the best supported, enabled target",
 "A dynamically dispatched call runs the implementation compiled for the best target among those that are compiled in, supported by the CPU and not disabled, and never any other; the first call behaves like all later ones. After any sequence of disabling targets, overriding or resetting the supported set and (re)initialising the chosen target, the next dispatched call follows the latest settings, and disabling everything falls back to the baseline. Concurrent first calls from several threads each run a correct implementation without data races.",
 ["histories", "schedules", "configurations"],
 "all subsets of supported targets, all sequences of configuration and dispatch calls up to a depth, all interleavings of concurrent first calls",
 "Tests call through a few fixed supported sets in sequence on one thread and one CPU.",
 ["hwy/targets.cc", "hwy/targets.h", "hwy/highway.h", "hwy/per_target.cc", "hwy/foreach_target.h"],
 [("chosen-target bit mask and table index", "hwy/targets.h ChosenTarget"), ("first-entry function that detects and re-dispatches", "hwy/highway.h FunctionCache"), ("supported mask and user disable mask", "hwy/targets.cc SupportedTargets, DisableTargets")],
 [], ["which target's function body ran"])
prop("C07", "A SIMD target is reported only if CPU and OS support all its instructions",
 "For every processor and operating system, the set of supported targets contains a target only if CPUID reports every instruction-set extension that target's code may use and the OS has enabled the register state it needs, and then always contains it. On x86-64 the targets every such processor can run (SSE2, EMU128, SCALAR) are always included, and unsupported or weird CPUID leaves (short maximum leaf, missing extended leaf, disabled AVX state) never cause a target to be reported by accident.",
 ["configurations"],
 "all combinations of the CPUID feature bits, maximum leaves, vendor and XCR0 state bits that detection consults (exhaustively per target: each required bit absent; each subset of the OS state bits)",
 "Tests run on one CPU, which has nearly everything; no test can present a CPU with AVX-512 but without OS support.",
 ["hwy/targets.cc", "hwy/x86_cpuid.h", "hwy/detect_targets.h"],
 [("feature bit collection and group masks", "hwy/targets.cc x86::DetectTargets"), ("XGETBV check", "hwy/targets.cc ReadXCR0")],
 [], ["SupportedTargets()"])
prop("C08", "Fixed-size bit sets behave exactly like sets of small integers",
 "After any sequence of inserting, removing, assigning and combining, membership, emptiness, count, first, last and iteration of the 64-bit and hierarchical 4096-bit sets agree with an ordinary set of integers. Iteration visits each member once in ascending order. This holds for every capacity the type allows, including ones that are not multiples of 64.",
 ["histories", "inputs"], "all operation sequences up to a depth over boundary indices (0, 1, 62..66, word and set ends), all capacities near word boundaries",
 "Tests insert random elements into the two default-size sets; the two-level summary can only go stale after specific removals.",
 ["hwy/bit_set.h"], [("two-level summary of non-zero words", "hwy/bit_set.h BitSet4096")], [], ["Get, Any, All, Count, First, Last, Foreach"])
prop("C09", "Aligned allocation returns aligned, disjoint, exactly-freed storage",
 "Every successful aligned allocation is aligned to at least the advertised alignment, has at least the requested usable size, does not overlap another live allocation, and releasing it returns exactly the pointer obtained from the underlying allocator, once. A request whose byte size overflows, or whose underlying allocation fails, yields null or the documented failure and never a short block; arrays of objects are constructed and destroyed element by element exactly once. Multi-dimensional aligned arrays and aligned vectors index distinct, in-bounds, row-aligned elements.",
 ["inputs", "histories", "fault_sequences"],
 "all sizes near alignment and overflow boundaries, all element sizes, all interleavings of live allocations, all addresses and failures the custom allocator may return, all small shapes",
 "Tests use a few sizes and the system malloc, whose addresses are always 16-byte aligned and which never fails.",
 ["hwy/aligned_allocator.cc", "hwy/aligned_allocator.h"],
 [("header before payload storing the original pointer", "hwy/aligned_allocator.cc AllocateAlignedBytes"), ("overflow check on element count", "hwy/aligned_allocator.h AllocateAlignedItems"), ("padded row pitch", "hwy/aligned_allocator.h AlignedNDArray")],
 [], ["returned pointers, calls of the custom allocator"])
prop("C10", "Image rows are aligned, disjoint, padded and fully owned",
 "For every image type and size, each row starts at a vector-aligned address, holds its width plus enough padding for whole-vector access to the last pixel, does not overlap any other row, and lies inside memory owned by that image until it is destroyed or moved from. Copies, swaps, mirroring, comparison and rectangle views address exactly the pixels they name, including empty, single-row and clamped ones.",
 ["inputs", "histories"], "all small widths/heights and pixel types, all rectangles inside and across the border, all mirror coordinates within the documented range, all vector sizes",
 "Tests check two or three sizes.",
 ["hwy/contrib/image/image.h", "hwy/contrib/image/image.cc"], [("bytes-per-row padding", "hwy/contrib/image/image.cc BytesPerRow"), ("mirror", "hwy/contrib/image/image.h Mirror"), ("rect clamping", "hwy/contrib/image/image.h Rect")], [], ["row pointers; guard pages"])
OPS = ["hwy/ops/x86_128-inl.h", "hwy/ops/x86_256-inl.h", "hwy/ops/x86_512-inl.h", "hwy/ops/x86_avx3-inl.h", "hwy/ops/generic_ops-inl.h", "hwy/ops/scalar-inl.h", "hwy/ops/emu128-inl.h"]
WHY = "The unit tests check a few random or iota vectors per op and type; wrong results at specific operand values, lane positions, counts or for one target's specialisation of one type pass them."
QT = "every target compiled here, every lane type the op supports, every vector size from one lane to the full vector; "
prop("C11", "Integer arithmetic ops give the documented result in every lane",
 "On every target and for every vector size, integer addition, subtraction, multiplication (low, high, widening, fixed-point), division, remainder, saturating and averaging arithmetic, absolute value/difference, negation, minimum, maximum, clamping and their masked forms equal the mathematically defined wrapped or saturated scalar result in every lane, for all operand values. Lanes do not influence one another and no operand value (minimum signed value, zero divisor in an unselected lane, all ones) makes another lane wrong.",
 ["inputs", "configurations"], QT+"all 8-bit operand pairs, all 16-bit values against a boundary alphabet, boundary alphabets squared for 32/64 bits",
 WHY, OPS, [("per-target implementations and generic fallbacks", "hwy/ops/*-inl.h")], [], ["result lanes"])
prop("C12", "Floating-point ops are IEEE-correct, including NaN, infinity and zero signs",
 "On every target, floating-point addition, subtraction, multiplication, division, square root, fused or unfused multiply-add, minimum, maximum, absolute value, sign copying, rounding to integral values, reciprocal estimates, exponent/mantissa extraction and classification give the documented result for every operand, including signed zeros, subnormals, infinities and NaN. Exact operations are bit-exact to the correctly rounded scalar result; approximate ones stay within their documented error.",
 ["inputs", "configurations"], QT+"all float16/bfloat16 values, all or a dense enumerated subset of float32 bit patterns for unary ops, a boundary alphabet squared or cubed otherwise",
 WHY, OPS, [("per-target implementations", "hwy/ops/*-inl.h")], [], ["result lanes"])
prop("C13", "Shifts, rotates, logical and bit-manipulation ops are exact for every count",
 "On every target, logical ops, shifts by constants, by a common count and by per-lane counts, rotates, byte/bit reversal, population count, leading/trailing zero count, highest-set-bit index, sign broadcast and bit shuffles equal their scalar definition for every lane type, every valid count and every value.",
 ["inputs", "configurations"], QT+"all valid shift counts with all 8/16-bit values and boundary alphabets for 32/64 bits",
 WHY, OPS, [("emulation of missing byte and 64-bit shifts", "hwy/ops/x86_128-inl.h")], [], ["result lanes"])
prop("C14", "Comparisons and mask operations are exact and consistent",
 "On every target, comparisons give true exactly for the lanes where the relation holds (unordered for NaN), and every mask operation - logic, counting, finding first/last true, set-before/after-first, first-N, conversion to and from vectors, bits and other lane types, loading/storing mask bits - agrees with a plain array of booleans for every mask value and size. Selecting, zeroing or blending by a mask affects exactly the selected lanes.",
 ["inputs", "configurations"], QT+"all masks for up to 16 lanes and structured masks beyond, all 8-bit operand pairs and boundary alphabets squared",
 WHY, OPS, [("bit masks on AVX-512, vector masks elsewhere", "hwy/ops/*-inl.h")], [], ["mask bits"])
prop("C15", "Conversions and demotions round, saturate and truncate as documented",
 "On every target, promoting, demoting, truncating, ordered and re-ordered demoting, and converting between integers and floats produce the documented value for every input: exact widening, saturation at the destination's range, truncation toward zero, round-to-nearest-even where stated, and the specified results for infinities, NaN and out-of-range inputs. Half-precision and bfloat16 conversions round correctly; bfloat16 preserves infinities and NaN, and so does half precision except in the software conversions of SSE2..SSE4 and EMU128 (documented as implementation-defined).",
 ["inputs", "configurations"], QT+"all 8/16-bit inputs, all float16/bfloat16, enumerated float32/float64/int32/int64 boundary sets (2^k, 2^k +- 1, halves, limits, all exponents)",
 WHY, OPS+["hwy/base.h"], [("saturating fix-ups", "hwy/ops/x86_128-inl.h ConvertTo, DemoteTo")], [], ["result lanes"])
prop("C16", "Loads and stores touch exactly the addressed lanes",
 "On every target, loading, storing, masked, partial (first-N), interleaved, streamed, gathered, scattered and duplicated memory operations transfer exactly the documented lanes between memory and vector for every count, mask, alignment and index. They never write a byte outside the selected lanes, never modify neighbouring memory, and partial and masked operations do not fault on unselected memory.",
 ["inputs", "configurations"], QT+"all counts 0..2N, all masks for small vectors, all misalignments, buffers adjacent to inaccessible pages, all index vectors up to 4 lanes, affine families beyond, largest indices",
 WHY, OPS, [("partial load/store by lane count", "hwy/ops/x86_128-inl.h LoadN, StoreN"), ("masked fall-backs", "hwy/ops/generic_ops-inl.h")], [], ["memory contents around the buffer; faults"])
prop("C17", "Permutations, shuffles, compress/expand and lane access move the right lanes",
 "On every target, every swizzle - interleave, concatenate, odd/even, reverse, broadcast, block and per-lane table lookups, slides, shifts by lanes or bytes, compress, expand, insert and extract, combine and split - moves each input lane to exactly the documented output lane for every index, amount and mask. No bits of other lanes leak in, and lanes documented as zero are zero.",
 ["inputs", "configurations"], QT+"all valid table indices (per lane and pairs of lanes), all slide amounts, all compress masks for up to 16 lanes, distinct lane contents",
 WHY, OPS, [("compress lookup tables and permute instructions", "hwy/ops/*-inl.h")], [], ["result lanes"])
prop("C18", "Reductions and widening sums combine every lane exactly once",
 "On every target, sums, minima and maxima over all lanes (as scalar or broadcast), sums of groups of 2, 4 or 8 lanes, sums of absolute differences, pairwise additions and widening multiply-accumulate and dot products include each lane's contribution exactly once with the documented width, sign and saturation, for every lane content and vector size.",
 ["inputs", "configurations"], QT+"each lane position perturbed individually and in pairs over boundary alphabets; all 8-bit operand pairs for widening products",
 WHY, OPS, [("log-step reduction and per-target instructions", "hwy/ops/*-inl.h")], [], ["result lanes"])
prop("C19", "AES and carry-less multiply match their standards in hardware and emulation",
 "On every target, AES round, last-round, inverse and key-assist operations equal FIPS-197 for every state byte, and carry-less multiplication of lower and upper halves equals polynomial multiplication over GF(2), for every 128-bit block of the vector independently. Emulated and hardware versions agree bit for bit.",
 ["inputs", "configurations"], "every target; every byte value in every state position; all round constants; all pairs of single-bit and two-bit operands (the product is bilinear)",
 "Tests check a few FIPS vectors and products.",
 OPS, [("GF(2^8) and CLMul emulation", "hwy/ops/generic_ops-inl.h")], [], ["result lanes"])
SORT = ["hwy/contrib/sort/vqsort-inl.h", "hwy/contrib/sort/vqsort.cc", "hwy/contrib/sort/vqsort.h", "hwy/contrib/sort/sorting_networks-inl.h", "hwy/contrib/sort/traits-inl.h", "hwy/contrib/sort/traits128-inl.h", "hwy/contrib/sort/shared-inl.h", "hwy/contrib/sort/order.h"]
prop("C20", "Sorting yields an ordered permutation of the input, in bounds, always",
 "For every key type, order and length, sorting leaves the array ordered by that order (for floats with NaN at the documented end) and a permutation of the input: no key or payload is lost, duplicated or torn from its key. It never reads or writes outside the array, and it terminates on every input and for every state of its internal random generator.",
 ["inputs", "configurations"], "all lengths up to several base-case sizes and the neighbourhoods of internal thresholds; all 0-1 inputs for small lengths and all few-valued inputs; structured adversarial patterns (sorted, reversed, all equal, organ pipe, one outlier, extreme sentinels, NaN mixes) for larger lengths; every target",
 "Tests use random distributions for a few lengths; a broken comparator in a sorting network or a mis-handled sentinel shows up only for particular 0-1 patterns.",
 SORT, [("sorting networks for small inputs", SORT[3]), ("vectorised quicksort with sampling, degenerate-pivot handling and heapsort fallback", SORT[0])], [], ["array contents, guard pages"])
prop("C21", "Partial sort and select put the right keys in the right positions",
 "After a partial sort the first k positions hold the k first keys of the fully sorted input in order, and after a select position k holds the key a full sort would put there, with no earlier position holding a later key and no later position an earlier one. In both cases the whole array is a permutation of the input, and memory outside it is untouched, for every k, length, key type and order.",
 ["inputs", "configurations"], "all k for all lengths up to a bound, few-valued and structured inputs, lengths around internal thresholds; every target",
 "Tests use random k for a few lengths.", SORT, [("recursion limited to the side containing k", SORT[0])], [], ["array contents"])
prop("C22", "Range algorithms equal their standard counterparts for every length",
 "Fill, copy, conditional copy, find, conditional find, generate, for-each, one/two/three-input transform and replace give the same array contents and return value as the scalar standard algorithm, for every length, alignment and lane type. They never write outside the destination range nor read outside the source range.",
 ["inputs"], "all lengths 0..several vectors, all match positions, all condition patterns for small lengths, guard pages at both ends; every target",
 "Tests sample counts and misalignments with random data.",
 ["hwy/contrib/algo/copy-inl.h", "hwy/contrib/algo/find-inl.h", "hwy/contrib/algo/transform-inl.h"], [("whole-vector loop plus partial remainder", "hwy/contrib/algo/*-inl.h")], [], ["array contents, guard pages"])
prop("C23", "Bit packing round-trips every value and uses exactly the promised space",
 "For every bit width of the 8-, 16-, 32- and 64-bit packers, unpacking what was packed returns the original values for all values of that width, and exactly the documented number of packed vectors is written and read. Each packed bit is determined by the values alone, so the packed size is the information content.",
 ["inputs"], "all widths, every value in every lane position (single-bit basis and all-ones/complement backgrounds, which determines the bit-linear packing), every target",
 "Tests round-trip random data.",
 ["hwy/contrib/bit_pack/bit_pack-inl.h"], [("unrolled shift/or per width", "hwy/contrib/bit_pack/bit_pack-inl.h")], [], ["packed and unpacked buffers"])
prop("C24", "Dot products, matrix-vector products and unrolled loops cover each element once",
 "Dot products (all precisions and assumption flags), matrix-vector products (with or without addend, with any thread pool) and the unroller-driven loops give the mathematically defined result within floating-point reassociation error, exactly when all products and sums are exactly representable, for every length. Each element contributes exactly once, inputs are not read outside their range and outputs not written outside theirs.",
 ["inputs", "configurations"], "all lengths 0..several unrolled vectors, one-hot and exactly representable inputs at every position, guard pages; all targets; pools of several sizes",
 "Tests use random values with tolerances that hide a missing or doubled element, for sampled lengths.",
 ["hwy/contrib/dot/dot-inl.h", "hwy/contrib/matvec/matvec-inl.h", "hwy/contrib/unroller/unroller-inl.h"], [("unrolled accumulators plus remainder", "hwy/contrib/dot/dot-inl.h")], [], ["results, guard pages"])
prop("C25", "Math functions stay within their documented error over the valid range",
 "Each vector math function stays within its documented maximum ULP error over its documented input range for every float, returns the documented results at zeros, infinities, NaN and out-of-domain inputs, and gives the same result for a lane irrespective of the other lanes. Double-precision versions satisfy the same at every exponent and near every range-reduction and branch boundary.",
 ["inputs"], "all float32 bit patterns in the documented range (thorough: all; quick: a fixed-stride complete sweep of every exponent), enumerated float64 boundary set; every target",
 "Tests stride through the range with a few thousand samples.",
 ["hwy/contrib/math/math-inl.h"], [("range reduction and polynomial approximation", "hwy/contrib/math/math-inl.h")], [], ["result lanes"])
prop("C26", "Vector random generators reproduce the reference streams and stay in range",
 "Every lane of the vector generator produces exactly the published xoshiro256++ stream started from the documented jump of the seed, in whatever amounts it is drawn (single vectors, fixed or dynamic counts, cached scalars), so that no two lanes overlap and none repeats. Uniform floating-point draws lie in [0, 1) and are the documented function of the integer draw.",
 ["histories", "inputs"], "all draw sequences up to a depth mixing every drawing method; seeds from an alphabet including 0 and all-ones; all lane counts (targets)",
 "Tests compare one seed for a fixed count.",
 ["hwy/contrib/random/random-inl.h"], [("per-lane jumped states", "hwy/contrib/random/random-inl.h")], [], ["drawn values"])
prop("C27", "Scalar building blocks are exact for all inputs",
 "The scalar helpers that applications and the vector code share - 128-bit multiply, division by invariant divisors, population count and bit scans, power-of-two rounding and log, float16/bfloat16 to and from float, lane-limit constants, byte copies and type-name mapping - equal their mathematical definition for every input in their documented domain. Scalar half-precision conversion agrees with IEEE rounding and round-trips.",
 ["inputs"], "all 16-bit patterns, all 2^32 floats for half-precision conversion (thorough) or a complete per-exponent sweep (quick), all divisors up to a bound and boundary divisors against boundary dividends",
 "Tests use a few constants and random values.",
 ["hwy/base.h"], [("Divisor/Divisor64", "hwy/base.h"), ("F16FromF32, BF16FromF32", "hwy/base.h")], [], ["return values"])
prop("C28", "Streaming statistics and histograms equal batch statistics",
 "Streaming statistics fed with any sequence of samples, or merged from any partition of it, report the count, extrema, mean, variance and higher moments of that multiset, up to rounding, and resetting forgets everything. Robust statistics (mode, median, absolute deviation, counting sort) equal their brute-force definitions for every small input, and histogram bins count every in-range notification exactly once.",
 ["histories", "inputs"], "all sample sequences up to a length over a small alphabet, all partitions for merging, all small integer arrays for mode/median",
 "Tests cover a single merge and a few distributions, if at all.",
 ["hwy/stats.h", "hwy/stats.cc", "hwy/robust_statistics.h"], [("one-pass moment updates and pairwise merge", "hwy/stats.h Stats::Assimilate"), ("half-sample mode", "hwy/robust_statistics.h")], [], ["returned statistics"])
prop("C29", "Topology detection is correct or cleanly absent for every system",
 "For every set of online processors, packages, cores, clusters and nodes the operating system describes, the detected topology assigns every online logical processor to exactly one package, cluster, core and SMT position consistent with that description, and each group's processor set contains exactly its members. When information is missing, truncated, interrupted or malformed, detection reports failure or falls back as documented, never crashes, loops, accesses memory out of bounds, or closes a file other than once. Cache parameters describe the first processor's data caches divided among the cores that share them, or are absent, and affinity sets are exactly those the operating system reports.",
 ["configurations", "fault_sequences"], "all small system shapes, processor numberings and list formats, and every single (and pairs of) read failure, short read, interruption or malformed file",
 "Tests run on the machine at hand only.",
 ["hwy/contrib/thread_pool/topology.cc", "hwy/contrib/thread_pool/topology.h"], [("sysfs reading and parsing", "hwy/contrib/thread_pool/topology.cc"), ("cluster/package construction", "hwy/contrib/thread_pool/topology.cc InitTopology")], [], ["Topology fields; sysfs file reads through interposed libc calls"])
prop("C30", "Error handlers receive every warning and abort, formatted, exactly once",
 "A warning or fatal error with any format and arguments reaches the currently installed handler exactly once with the right file, line and fully formatted, bounded message, and the handler returned by installing a new one is the previously installed one, in any sequence and from any thread. Without a handler, warnings print and continue, and fatal errors print and terminate the process abnormally, never return.",
 ["histories", "schedules", "inputs"], "all sequences of installing/removing handlers and raising up to a depth, all interleavings of two threads doing so, messages of all lengths around the internal buffer limit",
 "Tests install one handler and raise one message of ordinary length.",
 ["hwy/abort.cc", "hwy/abort.h", "hwy/base.h"], [("atomic handler exchange", "hwy/abort.cc"), ("bounded formatting", "hwy/abort.cc")], [], ["handler invocations, process exit status, stderr"])
prop("C31", "WebAssembly targets compute the documented results",
 "On both WebAssembly SIMD targets (128-bit and emulated 256-bit vectors), every vector operation (arithmetic, floating-point, shifts and bits, comparisons and masks, conversions, memory access, lane movement and compression, reductions, widening and saturating products, cryptographic operations) gives exactly the documented result for every input, lane type and vector size, equal to the scalar and x86 results, and so do the algorithms built on them (sorting, searching and copying, bit packing, dot products, random numbers).",
 ["inputs", "configurations"], "both WASM targets, all lane types and vector sizes; all 8-bit (and boundary values of wider) lane inputs, all small masks, counts, offsets and indices",
 "The test suite built here runs x86 and scalar targets only.",
 ["hwy/ops/wasm_128-inl.h", "hwy/ops/wasm_256-inl.h", "hwy/ops/generic_ops-inl.h"], [("per-target operations", "hwy/ops/wasm_128-inl.h"), ("256-bit vectors as pairs", "hwy/ops/wasm_256-inl.h")], [], ["results of vector operations, run in node"])
prop("C32", "Timers and micro-benchmarks measure elapsed time faithfully",
 "On a processor with an invariant time stamp counter, elapsed ticks convert to seconds without overflow at any counter value, the detected tick rate equals the counter's true rate for any clock origin and for occasional disturbances of the measurement, the reported timer resolution is the real smallest increment, and availability of the stop timer and the processor name are detected exactly from what CPUID reports. Benchmark results contain exactly the requested inputs, each with the duration of the measured function for that input within the reported variability, also when a minority of samples is disturbed; unusable inputs fail cleanly.",
 ["inputs", "configurations", "fault_sequences"], "all pairs of boundary counter values, all CPUID answers that matter, all rates/origins/steps of the clock in a grid, each single and pair of disturbances of the measurement, all small input lists and duration tables",
 "Tests run on one real processor and can only bound results loosely because of noise.",
 ["hwy/timer.cc", "hwy/timer.h", "hwy/timer-inl.h", "hwy/nanobenchmark.cc", "hwy/nanobenchmark.h"], [("TSC calibration", "hwy/timer.cc"), ("robust estimation over repeated measurements", "hwy/nanobenchmark.cc")], [], ["timer functions' results, nanobenchmark Measure results"])
prop("C33", "Profiler reports exact call counts and self times for every zone history",
 "For every properly nested history of zones on any number of threads, the printed profile lists each distinct zone name exactly once with its exact number of calls and its self time, i.e. total duration minus that of nested zones, summed over threads, in descending order, whatever the number of events relative to internal buffers and storage and wherever they are flushed; memory outside the buffers is never touched.",
 ["histories", "schedules"], "all zone forests up to a size over a few names and durations, every fill level of the write buffer and storage, all interleavings of two threads' events",
 "The profiler is disabled in the tests' build, and overhead makes times inexact on real hardware.",
 ["hwy/profiler.h"], [("packet encoding and masking of timestamps", "hwy/profiler.h Packet"), ("self time computation and merging", "hwy/profiler.h Results"), ("buffered storage per thread", "hwy/profiler.h ThreadSpecific")], [], ["output of PROFILER_PRINT_RESULTS"])
prop("C34", "Performance counters report exactly the available counters, extrapolated",
 "Whatever subset of hardware and software counters the system offers, however many fit into one group, and however its calls are interrupted, exactly the available counters are valid after initialization; they run only between starting and stopping, are zero after resetting, and each reading yields the system's count times enabled time divided by running time of its group, with the largest such factor reported. Counters which were never scheduled or whose reading failed are invalid and zero, never wrong; Init and StartAll report unavailability; any order of operations is safe.",
 ["histories", "configurations", "fault_sequences"], "all sets of available counters and group capacities, all sequences of operations up to a depth, each call interrupted, failing or truncated",
 "Counters are usually unavailable in test machines, and their values are not predictable otherwise.",
 ["hwy/perf_counters.cc", "hwy/perf_counters.h"], [("grouping of events", "hwy/perf_counters.cc PMU::Init"), ("reading and extrapolation", "hwy/perf_counters.cc PMU::Read")], [], ["PerfCounters values; system calls"])
prop("C35", "Printed lanes and vectors denote their values",
 "For every value of every lane type, including 16-bit floating-point and 128-bit integers, the printed text stays within its buffer and denotes that value: integers exactly (as a number or as their bits), floating-point values including infinities, NaN and the sign of zero within the printed digits whatever their magnitude (small ones keep their leading digits). Printing an array or a vector of any target and size names its lane type and number of lanes and prints exactly the lanes of the requested window, in memory order, and nothing beyond its end.",
 ["inputs"], "all values of 8/16-bit lanes and a lattice of wider ones; every array length, first lane and number of lanes around each other, every vector size of each target",
 "Tests print a few vectors for humans to look at; nothing reads the output.",
 ["hwy/print.cc", "hwy/print.h", "hwy/print-inl.h"], [("formatting of one lane", "hwy/print.cc ToString"), ("window of lanes", "hwy/print.cc PrintArray"), ("vectors", "hwy/print-inl.h Print")], [], ["printed text"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
