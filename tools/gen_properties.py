#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os, sys
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

TP = "hwy/contrib/thread_pool/"
prop("P01", "Parallel-for runs every task exactly once before returning",
 "A call that runs a range of tasks on a thread pool invokes the closure exactly once for every task index in the half-open range and for no other index, and returns only after every one of these invocations has finished. This holds for every number of threads, every range (empty, smaller, equal to or larger than the number of workers, and starting at any 64-bit index whose end plus the number of workers does not overflow), every wait mode, and every sequence of earlier calls and wait-mode changes.",
 ["schedules", "histories", "inputs"], "all interleavings of main and worker threads, all histories of run/wait-mode calls, all task ranges, all supported thread counts up to the maximum",
 "Tests run a handful of schedules chosen by the OS; a premature barrier or double reservation needs one particular interleaving (or one particular call count) to show.",
 [TP+"thread_pool.h", TP+"futex.h", TP+"spin.h"],
 [("work assignment and stealing", "Tasks::DivideRangeAmongWorkers, WorkerRunWithStealing, WorkerRunSingle"), ("barriers", "BarrierOrdered/BarrierCounter/BarrierGroup"), ("wake-up", "WaitBlock/WaitSpin1/WaitSpinSeparate"), ("config hand-over", "ThreadPool::SendConfig")],
 state=[{"name":"wait and barrier epochs per worker","meaning":"which call each thread has been woken for / has finished"},{"name":"remaining range per worker","meaning":"tasks not yet reserved"},{"name":"latched configuration","meaning":"wait/barrier strategy for the next call"}], observe_at=["closure entry/exit", "return of Run"])
prop("P02", "Worker indices are exclusive and task effects are visible to the caller",
 "While tasks of one parallel-for call run, the worker index passed to the closure is always below the reported number of workers and no two invocations that overlap in time carry the same index, so it can index thread-local storage without locks. Everything the caller wrote before the call is visible to every task, and everything tasks wrote is visible to the caller when the call returns, under the C++ memory model and not just on strongly ordered CPUs.",
 ["schedules", "histories"], "all interleavings and all values permitted by the C++ memory model for the atomics used",
 "On x86 test machines a missing release/acquire has no visible effect, and index sharing needs a rare overlap.",
 [TP+"thread_pool.h"], [("worker identity", "ThreadFunc / Worker::Index / Run"), ("release/acquire publication", "StoreWaiter, StoreBarrier, Tasks::Set, MutableBarrier")],
 observe_at=["closure arguments", "plain data written by caller and tasks"])
prop("P03", "Pool operations never hang and the pool can always be destroyed",
 "Every parallel-for call, wait-mode change and pool destruction terminates under any fair scheduling of the threads, including when worker threads start late, when waits are interrupted or wake spuriously, and across the automatic switches of wait and barrier strategy between calls. After destruction all threads of the pool have exited.",
 ["schedules", "histories", "fault_sequences"], "all fair schedules, spurious and interrupted waits, all histories of calls",
 "A lost wake-up or a strategy switch observed by only some threads deadlocks only in a narrow window that unit tests do not steer into.",
 [TP+"thread_pool.h", TP+"futex.h", TP+"spin.h", "hwy/auto_tune.h"], [("two-phase configuration switch", "ThreadPool::SendConfig"), ("exit protocol", "~ThreadPool / ThreadFunc"), ("futex wait loop", "BlockUntilDifferent, WakeAll")])
prop("P04", "Blocking and spinning waits return exactly when the watched value changed",
 "A wait-until-different returns only a value different from the previous one that was actually stored, a wait-until-equal returns only once the expected value was stored, and both do return if the watched variable keeps such a value after the writer stored it (and, for blocking waits, woke the waiters), regardless of the order of store, wake and wait. What the writer did before storing the value is visible to the thread that returns because of it. The monitor-based spin strategies give the same guarantee as the pause-based one.",
 ["schedules", "fault_sequences"], "all interleavings of waiters and a writer, with spurious wake-ups and interrupted system calls",
 "Lost wake-ups need the store to land between the check and the wait; monitor-based variants do not even run on most test machines.",
 [TP+"futex.h", TP+"spin.h"], [("futex protocol", "BlockUntilDifferent/WakeAll"), ("armed monitor double-check", "SpinMonitorX/SpinUMonitor/SpinPause"), ("strategy selection", "DetectSpin/CallWithSpin")])
prop("P05", "Auto-tuning tries all candidates fairly and settles on one that measured well",
 "Before tuning completes, the configuration handed out cycles over all remaining candidates, each cost report is attributed to the configuration that was handed out for it, and a candidate is only discarded on the basis of its own measurements. Tuning always completes after a bounded number of reports, after which the reported best is one of the given candidates, never changes, and had the lowest estimated cost among the survivors.",
 ["histories", "inputs"], "all sequences of reported costs and all candidate counts",
 "Tests feed a few cost streams; attribution and elimination errors show only for particular orderings or candidate counts.",
 ["hwy/auto_tune.h"], [("round-robin over survivors", "NextWithSkip / AutoTune::NextConfig"), ("elimination and completion", "AutoTune::NotifyCost, CostDistribution")])
prop("P06", "Dynamic dispatch runs the best implementation that is supported and not disabled",
 "A dynamically dispatched call runs the implementation compiled for the best target that is in the currently supported set and was generated for that call site, where the supported set is what the CPU offers minus the explicitly disabled targets, or the forced set (when one is set for testing) minus the explicitly disabled targets. Disabling, forcing, querying, resetting the choice and calling may be interleaved in any order and every later call honours the latest setting; if everything is disabled the baseline runs.",
 ["histories", "schedules", "configurations"], "all sequences of disable/force/query/reset/call operations over several call sites",
 "Tests exercise a few fixed sequences; caching of the choice in a global mask makes the outcome depend on the full history.",
 ["hwy/targets.cc", "hwy/targets.h", "hwy/highway.h"], [("chosen-target mask", "ChosenTarget::Update/GetIndex/DeInit"), ("dispatch tables", "HWY_EXPORT, FunctionCache::ChooseAndCall"), ("supported set", "SupportedTargets, DisableTargets, SetSupportedTargetsForTest")],
 observe_at=["target reported by the called function", "SupportedTargets()"])
prop("P07", "A target is reported supported only if CPU and OS support everything it needs",
 "On x86, a target is offered exactly when the CPU reports all instruction-set extensions it requires and, for targets with wider registers, the operating system has enabled the corresponding register state. Fewer features or less OS state never add a target, so a binary never executes instructions the machine cannot run.",
 ["inputs", "configurations"], "all combinations of feature bits, vendor/leaf limits and OS register-state bits",
 "Tests only ever see the feature combination of the machine they run on.",
 ["hwy/targets.cc", "hwy/x86_cpuid.h"], [("feature bit collection", "x86::FlagsFromCPUID / DetectTargets"), ("OS state check", "XGETBV handling in DetectTargets")], hook_needed="source of cpuid leaves and XCR0")
prop("P08", "Warnings and aborts reach the installed handler with the formatted message",
 "Every warning and abort produced by the library calls the handler most recently installed, exactly once, with the source file and line and the complete formatted message up to the size of the formatting buffer (800 bytes); without a handler the default action applies. Installing a handler returns the previous one, a returning abort handler never lets execution continue past the abort, and warnings always return to the caller.",
 ["histories", "inputs"], "all sequences of handler installation, warning and abort with arbitrary messages",
 "Tests check one message and one installation order.",
 ["hwy/abort.cc", "hwy/base.h"], [("handler slots", "SetWarnFunc/SetAbortFunc/GetRef"), ("formatting", "Warn/Abort")])
prop("P09", "Aligned allocation returns disjoint, aligned, sufficiently large memory or null",
 "Each successful allocation is aligned to the documented boundary, holds at least the requested bytes, does not overlap any other live allocation, and is obtained from and returned to the given allocator exactly once with the original pointer and opaque argument. Requests whose byte size overflows, and failures of the underlying allocator, yield null without side effects, and freeing null is a no-op.",
 ["histories", "inputs", "fault_sequences"], "all sequences of allocate/free with any sizes, item counts, custom allocators and allocator failures",
 "Tests allocate a few sizes; overflow and failure paths and the alignment-offset arithmetic depend on extreme or adversarial inputs.",
 ["hwy/aligned_allocator.cc", "hwy/aligned_allocator.h"], [("header before payload", "AllocateAlignedBytes/FreeAlignedBytes"), ("offset rotation", "NextAlignedOffset"), ("size overflow", "AllocateAlignedItems")])
prop("P10", "Owning aligned pointers construct and destroy each element exactly once",
 "Owners of a single aligned object or an aligned array construct every element in order with the given arguments, and on destruction, reset or move destroy every element exactly once before returning the memory once; a failed allocation gives a null owner and constructs nothing. Moving transfers ownership and leaves the source empty.",
 ["histories", "fault_sequences", "inputs"], "all sequences of make/move/reset/release/destroy, nonzero sizes, and allocator failures",
 "Tests count constructions for one size; failure and move paths are untested.",
 ["hwy/aligned_allocator.h", "hwy/aligned_allocator.cc"], [("array deleter", "AlignedDeleter::DeleteAlignedArray"), ("construction", "MakeUniqueAligned*")])
prop("P11", "Padded multi-dimensional arrays and images give disjoint aligned rows",
 "For every shape, each row (innermost dimension) of an aligned multi-dimensional array or image starts at the documented alignment, can be accessed for its full length plus the promised vector padding without leaving the buffer, and overlaps no other row; distinct index tuples address distinct elements. Sizes, strides, copies, swaps and mirrored access agree with the shape that was requested.",
 ["inputs", "histories"], "all shapes up to the documented limits and all element types",
 "Tests check a handful of shapes; stride/padding mistakes corrupt memory only for particular widths.",
 ["hwy/aligned_allocator.h", "hwy/contrib/image/image.cc", "hwy/contrib/image/image.h"], [("row stride", "AlignedNDArray::ComputeSizes, ImageBase::BytesPerRow"), ("access", "AlignedNDArray::operator[], Image::Row/WrapRow/Mirror")])
prop("P12", "Bit sets behave as mathematical sets and iterate in ascending order",
 "After any sequence of set, bulk-set from a 64-bit word and clear operations on the 64-element and the 4096-element (or smaller) bit set, membership, count, the any test, the first-element query and the 64-bit word query agree with the mathematical set of indices. Iteration visits each member once in ascending order and no operation touches memory outside the object.",
 ["histories", "inputs"], "all operation sequences and all supported capacities",
 "Tests use random indices at one capacity; boundary words and sequences of bulk and single operations are not sampled.",
 ["hwy/bit_set.h"], [("flat set", "BitSet64"), ("two-level set", "BitSet4096 (nonzero-word summary)")])
prop("P13", "Merged statistics equal statistics of the concatenated samples",
 "For any partition of a sample sequence, merging the statistics of the parts reports the same count, minimum, maximum, and (to rounding) mean and central moments as notifying all samples to one object; resetting restores the empty state. The robust location and mode estimators (median, half-sample mode of non-negative integer samples) return a value determined by the multiset of samples and within its range.",
 ["inputs", "histories"], "all sample sequences, partitions and merge orders",
 "Tests merge one or two fixed sequences.",
 ["hwy/stats.h", "hwy/stats.cc", "hwy/robust_statistics.h"], [("online moments", "Stats::Notify/Assimilate"), ("robust estimates", "robust_statistics.h Mode/Median")])
prop("P14", "Sorting produces the sorted permutation of the input",
 "For every key type (16/32/64-bit integers, floats, 64-bit and 128-bit keys and key-value pairs), length and direction, sorting rearranges exactly the given elements into the requested order, with all not-a-number values after all other values, and accesses nothing outside the given range. This holds on every compiled target and for every input distribution, including adversarial ones that defeat pivot selection.",
 ["inputs", "configurations"], "all arrays of all supported key types, both orders, all compiled targets",
 "The test distributions do not cover every partition shape, base-case size, duplicate pattern or target.",
 ["hwy/contrib/sort/vqsort-inl.h", "hwy/contrib/sort/sorting_networks-inl.h", "hwy/contrib/sort/traits-inl.h", "hwy/contrib/sort/traits128-inl.h", "hwy/contrib/sort/shared-inl.h"], [("sorting network base case", "SortingNetwork / Merge*"), ("partition", "Partition, PartitionRightmost"), ("pivot and recursion", "ChoosePivot, Recurse, HeapSort"), ("NaN handling", "CountAndReplaceNaN")])
prop("P15", "Partial sort and selection place exactly the requested ranks",
 "After a partial sort of n elements with bound k the first k elements are the k first of the sorted order in order and the whole array is a permutation of the input; after a selection, position k holds the element of that rank, everything before it is not after it and everything after it is not before it, and again the array is a permutation of the input. Both hold for every k up to n, both directions, all key types and all targets.",
 ["inputs", "configurations"], "all arrays, all ranks, both orders, all key types and targets",
 "Tests use random k for a few sizes; the recursion picks different branches depending on where the pivot falls relative to k.",
 ["hwy/contrib/sort/vqsort-inl.h"], [("select/partial recursion", "RecurseSelect / PartialSort paths in Recurse"), ("base case", "BaseCase")])
A="hwy/contrib/algo/"
prop("P16", "Array algorithms touch exactly the given elements and equal their scalar loops",
 "Generate, fill, copy, conditional copy, replace and element-wise transforms with zero, one or two extra inputs produce for every element count and pointer alignment exactly the result of the corresponding scalar loop, call the user function only with lanes of valid inputs (or documented padding), and neither read nor write outside the given ranges. Conditional copy keeps order and returns the end of the output.",
 ["inputs", "configurations"], "all element counts, alignments, contents and targets",
 "Remainder handling differs per target and count; reads past the end are invisible without guard pages.",
 [A+"copy-inl.h", A+"transform-inl.h"], [("whole-vector loop plus remainder", "Transform*/Replace*/Generate/Foreach/Fill/Copy/CopyIf")])
prop("P17", "Find returns the first match or the count",
 "Searching an array for a value or for the first element satisfying a vector predicate returns the smallest matching index, or the element count if there is none, for every length, alignment, position of the match and lane type. No element outside the range is read or can influence the result.",
 ["inputs", "configurations"], "all arrays, lengths, match positions, types and targets",
 "The vectorised tail overlaps or pads differently per target and length.",
 [A+"find-inl.h"], [("main loop and remainder", "Find/FindIf")])
prop("P18", "Bit packing is lossless and matches the documented bit count",
 "Packing one block of unsigned values that each fit in the chosen number of bits and unpacking the result restores every value, for every bit width of the 8-, 16-, 32- and 64-bit variants and every vector size. Packing writes and unpacking reads exactly the number of packed vectors implied by the bit width.",
 ["inputs", "configurations"], "all values of all bit widths and vector lengths on all targets",
 "Random tests use one distribution; a wrong shift in one of hundreds of unrolled statements affects a single lane of a single width.",
 ["hwy/contrib/bit_pack/bit_pack-inl.h"], [("unrolled pack/unpack", "Pack8/Pack16/Pack32/Pack64")])
prop("P19", "The unroller visits each element exactly once",
 "Unrolled map, accumulate and reduce loops process every element of the input exactly once and no element outside it, for every element count (including fewer than one vector and counts that are not a multiple of the unroll factor), and stop early only when the unit asks for it. Results equal those of the plain scalar loop.",
 ["inputs", "configurations"], "all element counts, unit kinds and targets",
 "Remainder and redundant-work branches depend on count modulo vector size and unroll factor.",
 ["hwy/contrib/unroller/unroller-inl.h"], [("loop structure", "Unroller (1D and 2D)")])
prop("P20", "Vector random streams equal the reference generators",
 "For every seed and stream number, the scalar generator produces the published xoshiro256++ sequence from a splitmix-derived state, jumps advance it by the documented distance, and the vector generator's lane i equals the scalar generator after i jumps, on every target; buffers returned for a requested count contain exactly that many numbers without writing outside. Uniform values lie in [0, 1) and are the documented function of the raw bits.",
 ["inputs", "histories", "configurations"], "all seeds, stream numbers, counts and call sequences",
 "Tests compare few seeds; requested counts that are not a multiple of the vector size are not sampled.",
 ["hwy/contrib/random/random-inl.h"], [("scalar engine", "internal::Xoshiro, SplitMix64"), ("vector engine", "VectorXoshiro"), ("caching", "CachedXoshiro")])
prop("P21", "Dot products equal the exact sum when it is representable",
 "Whenever all products and partial sums are exactly representable, the dot product equals the exact mathematical sum for every element count, alignment and declared assumption, for all supported type combinations and targets. Elements beyond the count influence the result never, and are read only if the caller declared them accessible.",
 ["inputs", "configurations"], "all lengths, assumptions, types, alignments and targets",
 "Remainder handling depends on length and assumption flags; tests tolerate rounding error that hides a dropped or duplicated element.",
 ["hwy/contrib/dot/dot-inl.h"], [("unrolled loop and remainder", "Dot::Compute overloads")])
prop("P22", "Matrix-vector products equal the exact result when representable",
 "Multiplying a matrix by a vector, with or without adding a vector, gives exactly the mathematical result for every output row whenever products and sums are exactly representable, for all element type combinations, fixed row counts and column counts that are documented as supported, with or without a thread pool of any size. Only the output rows are written.",
 ["inputs", "schedules", "configurations"], "all shapes, types, pool sizes and targets",
 "Row/chunk assignment depends on shape and worker count; tests use few shapes and tolerate error.",
 ["hwy/contrib/matvec/matvec-inl.h"], [("chunked rows", "MatVec, MatVecAdd, TwoMatVec")])
O=["hwy/ops/x86_128-inl.h","hwy/ops/x86_256-inl.h","hwy/ops/x86_512-inl.h","hwy/ops/scalar-inl.h","hwy/ops/generic_ops-inl.h"]
tg="all lane values, lane types, vector sizes and compiled targets"
wt="Tests check a few values per operation with tolerance for what they do not enumerate; each target implements most operations separately, so an error may hide in one (operation, type, size, target) combination."
prop("P23", "Integer arithmetic operations equal their mathematical definition",
 "For every lane, integer add, subtract, negate, multiply (low, high, widening, fixed-point rounding), saturated and averaging arithmetic, absolute value and difference, minimum/maximum, clamp, division and remainder give the wrapped, saturated or rounded mathematical result documented for the operation. The result is identical on all targets and vector sizes.",
 ["inputs","configurations"], tg, wt, O, [("lane-wise integer arithmetic","Add/Sub/Mul*/Saturated*/AverageRound/Abs*/Min/Max/Div/Mod in hwy/ops")])
prop("P24", "Bitwise, shift, rotate and bit-count operations equal their definition",
 "Logical operations, shifts and rotates by constant, same-for-all-lanes or per-lane amounts, population count, leading/trailing zero counts, highest set bit, bit and byte reversal give for every lane the documented function of the input bits, identically on all targets. Shift amounts up to the lane width minus one are all honoured, and signed right shifts replicate the sign bit.",
 ["inputs","configurations"], tg, wt, O, [("bit operations","And/Or/Xor/AndNot/Or3/Xor3/IfThenElse bits, Shift*/Rotate*/PopulationCount/LeadingZeroCount/Reverse*Bytes/Bits")])
prop("P25", "Comparisons and masks select exactly the lanes they describe",
 "Comparisons produce true for exactly those lanes whose values satisfy the relation (IEEE rules for floats, lexicographic for 128-bit), and mask creation, logic, counting, searching, slicing, conversion to and from bits and vectors, and mask-controlled selection agree with the boolean vector the mask denotes. Lanes beyond the vector length never influence a result.",
 ["inputs","configurations"], "all masks, lane values, vector sizes including partial vectors, and compiled targets", wt, O, [("masks","Lt/Le/Eq/..., FirstN, CountTrue, FindFirst/LastTrue, BitsFromMask, LoadMaskBits, StoreMaskBits, IfThen*, SetOnlyFirst, ...")])
prop("P26", "Loads and stores access exactly the described memory",
 "Every load returns the addressed lanes (zero or the given default for disabled or excess lanes), every store changes exactly the addressed bytes and leaves all others intact, and neither reads nor writes memory belonging to disabled lanes or beyond the vector where that is promised. This covers aligned, unaligned, masked, blended, first-N, truncated, duplicated and non-temporal forms for all vector sizes.",
 ["inputs","configurations"], "all addresses (including next to an unmapped page), masks, counts, types, vector sizes and targets", wt, O, [("memory operations","Load*/MaskedLoad*/LoadN*/Store*/BlendedStore/StoreN/Stream/SafeCopyN")])
prop("P27", "Interleaved, gather and scatter accesses address the documented elements",
 "Interleaved loads and stores with two to four channels, gathers and scatters with offsets or indices, and their masked and first-N forms move exactly the documented element to or from each lane; disabled lanes neither access memory nor change it. Later lanes win only where documented.",
 ["inputs","configurations"], "all index vectors, masks, counts, types, vector sizes and targets", wt, O, [("structured memory operations","LoadInterleaved2/3/4, StoreInterleaved2/3/4, Gather*/Scatter*, MaskedGather*/MaskedScatter*")])
prop("P28", "Lane movement operations realise the documented permutation",
 "Broadcast, reverse, shuffle, interleave, concat, combine, slide, shift-bytes, odd/even, block-wise and table-lookup operations place in every output lane exactly the documented input lane (or zero), for every vector size including partial vectors. The result depends on no other lane.",
 ["inputs","configurations"], "all lane contents, immediates, index vectors, types, vector sizes and targets", wt, O, [("swizzles","Reverse*, Interleave*, Zip*, Concat*, OddEven, Slide*, TableLookup*, TwoTablesLookup*, Broadcast*, Shuffle*, CombineShiftRightBytes, ...")])
prop("P29", "Compress and expand keep selected lanes in order",
 "Compressing moves the lanes selected by the mask, in order, to the front (or to memory, returning their number), and expanding distributes consecutive lanes to the selected positions with zero elsewhere, for every mask, lane type and vector size. Where promised, non-selected lanes follow in order, and blended stores change only the selected number of elements.",
 ["inputs","configurations"], "all masks, types, vector sizes and targets", wt, O, [("compaction","Compress, CompressNot, CompressBits, CompressStore, CompressBlendedStore, CompressBitsStore, Expand, LoadExpand")])
prop("P30", "Integer conversions widen, narrow, truncate and saturate as documented",
 "Promotions preserve the value, demotions clamp to the destination range, truncations keep the low bits, and lower/upper/even/odd and reorder variants convert exactly the documented lanes, for every pair of integer types and every vector size on every target.",
 ["inputs","configurations"], tg, wt, O, [("integer conversions","PromoteTo/PromoteLowerTo/PromoteUpperTo/PromoteEvenTo/OddTo, DemoteTo, TruncateTo, OrderedDemote2To, ReorderDemote2To, OrderedTruncate2To, U8FromU32, ResizeBitCast, ZeroExtend")])
prop("P31", "Float conversions round correctly and saturate out-of-range values",
 "Conversions among f16, bf16, f32 and f64 are exact when widening and round to nearest even when narrowing; conversions to integers truncate (or round to nearest where stated) and saturate out-of-range inputs, and conversions from integers round correctly. Special values (zeros, infinities, subnormals, not-a-number) map as documented, identically on all targets, except where the documentation leaves a choice (rounding or truncation of f32 to bf16, saturation of f64 to f32, not-a-number to integer).",
 ["inputs","configurations"], tg, wt, O+["hwy/base.h"], [("float conversions","PromoteTo/DemoteTo/ConvertTo/NearestInt/DemoteInRangeTo/F16<->F32/BF16<->F32")])
prop("P32", "Float arithmetic, rounding and classification follow IEEE-754",
 "Add, subtract, multiply, divide and square root are correctly rounded; round, ceiling, floor and truncate, minimum/maximum, absolute value, negate, copy-sign, and not-a-number/infinity/finite tests give the IEEE or documented result for every input including signed zeros, subnormals and special values. Results agree on all targets and vector sizes.",
 ["inputs","configurations"], tg, wt, O, [("float operations","Add/Sub/Mul/Div/Sqrt/Round/Ceil/Floor/Trunc/Min/Max/Abs/Neg/CopySign/IsNaN/IsInf/IsFinite/...")])
prop("P33", "Reductions combine every lane exactly once",
 "Sum, minimum and maximum reductions (to scalar or broadcast), grouped sums of adjacent lanes and sums of absolute differences equal the result of combining each lane of the logical vector exactly once, for every vector size including partial vectors. Lanes beyond the vector length never contribute.",
 ["inputs","configurations"], tg, wt, O, [("reductions","ReduceSum/Min/Max, SumOfLanes/MinOfLanes/MaxOfLanes, SumsOf2/4/8, SumsOf8AbsDiff, masked reduce, PairwiseAdd/Sub")])
prop("P34", "Widening multiply-accumulate operations sum the documented products",
 "Pairwise and quad widening multiply-add operations, saturating and reordering accumulations and even/odd widening multiplies equal the documented sum of exact products, wrapped or saturated as stated; for reordering forms the total over all lanes is exact. The result is identical on all targets.",
 ["inputs","configurations"], tg, wt, O, [("widening multiply-add","WidenMulPairwiseAdd, ReorderWidenMulAccumulate, RearrangeToOddPlusEven, SatWidenMulPairwiseAdd, SatWidenMulPairwiseAccumulate, SumOfMulQuadAccumulate, MulEven/MulOdd, WidenMulAccumulate")])
prop("P35", "Masked arithmetic leaves inactive lanes at the documented value",
 "Every masked form of an arithmetic, comparison, load or conversion operation equals the unmasked operation in active lanes and the stated fallback vector or zero in inactive lanes, regardless of the values (including ones that would trap or overflow) in inactive lanes.",
 ["inputs","configurations"], "all masks, lane values, types, vector sizes and targets", wt, O, [("masked ops","Masked*Or, Masked* (zeroing), MaskedMulAdd, MaskedIsNaN, MaskedEq/...")])
prop("P36", "Scalar integer utilities equal their mathematical definition",
 "Division by an invariant divisor, full-width multiplication, population and leading/trailing-zero counts, rounding to multiples, rounded-up division, arithmetic shifts, absolute values and base-2 logarithms return the exact mathematical value for every input in their documented domain. No input in the domain overflows or invokes undefined behaviour.",
 ["inputs"], "all operand values", "The domain is 64-bit; tests sample few divisors and operands.",
 ["hwy/base.h"], [("invariant division","Divisor/Divisor64"), ("wide multiply","Mul128"), ("bit scans and rounding","PopCount, Num0Bits*, FloorLog2/CeilLog2, RoundUpTo, DivCeil")])
prop("P37", "Scalar half-precision types convert and compare as IEEE values",
 "Converting a scalar f16 or bf16 to f32 is exact, converting f32 (or f64) back rounds to nearest even with correct overflow, underflow and not-a-number handling, and comparison, classification and arithmetic on these scalars equal those of the represented values.",
 ["inputs"], "all 16-bit patterns and all f32/f64 inputs", "Tests convert a small list of values; the rounding-boundary and subnormal inputs are a sparse subset of 2^32.",
 ["hwy/base.h"], [("conversion","F16FromF32/F32FromF16/BF16FromF32/BF16FromF64/F32FromBF16"), ("operators","float16_t/bfloat16_t comparison and arithmetic")])
prop("P38", "AES rounds and carry-less multiplication equal their standards",
 "AES encryption and decryption rounds, last rounds, inverse mix-columns and key-generation assist produce the FIPS-197 result for every 128-bit block of the vector, and carry-less multiplications produce the polynomial product over GF(2), on hardware-accelerated and fallback targets alike.",
 ["inputs","configurations"], "all blocks, keys, round constants and targets", "Tests use the standard's single vector; fallback and accelerated targets differ in implementation.",
 ["hwy/ops/generic_ops-inl.h","hwy/ops/x86_128-inl.h","hwy/ops/x86_256-inl.h","hwy/ops/x86_512-inl.h"], [("AES","AESRound/AESLastRound/AESRoundInv/AESInvMixColumns/AESKeyGenAssist"),("CLMul","CLMulLower/CLMulUpper")])
prop("P39", "Processor topology is a consistent partition of the online processors",
 "Whatever the operating system reports, the detected topology assigns each online logical processor to exactly one core and one cluster of exactly one package, with indices in range, and the per-core and per-cluster processor sets contain exactly the processors assigned to them; if required information is missing the topology is reported as unknown (empty). Thread affinity sets round-trip.",
 ["configurations","fault_sequences"], "all contents of the topology files, including sparse identifiers and missing or unreadable files", "Tests only see the topology of the machine they run on.",
 [TP+"topology.cc", TP+"topology.h"], [("sysfs parsing and remapping","DetectPackages, DetectClusters, DetectCores, Remapper, ParseDigits")])
prop("P40", "Profiler accounts every zone once with self and child time separated",
 "For any properly nested sequence of zones on any number of threads, the profile reports for each zone the number of times it was entered and a duration from which the time of enclosed zones was subtracted exactly once, and merging threads adds counts and durations without loss.",
 ["histories","schedules"], "all nested zone histories and thread interleavings", "Tests do not check the accumulated totals.",
 ["hwy/profiler.h"], [("packet buffers and accumulation","ThreadSpecific/Results/Zone")])
prop("P41", "Elementary math functions stay within their documented error",
 "Each vector math function (exp, log, trigonometric, hyperbolic and their inverses) returns for every input in its documented range a value within the documented number of units in the last place of the true result.",
 ["inputs","configurations"], "all float inputs", "Only sampled inputs are compared against the system library.",
 ["hwy/contrib/math/math-inl.h"], [("approximations","CallExp, CallLog, CallSin, ...")])
prop("P42", "Benchmark timer measurements are robust and correctly scaled",
 "The micro-benchmark reports for each input a duration whose variability estimate reflects the samples, subtracts timer overhead once, and never reports more results than inputs.",
 ["inputs","schedules"], "all measured functions and system noise", "Depends on physical time.",
 ["hwy/nanobenchmark.cc","hwy/timer.cc"], [("measurement loop","Measure / SampleUntilStable")])
prop("P43", "Compile-time target selection follows compiler, flags and configuration",
 "For every architecture, compiler version, operating system, set of instruction-set macros and user configuration, a translation unit is compiled for exactly the documented targets: baseline targets are those whose instructions the compiler may use unconditionally; disabled or known-broken targets are never enabled; the static target is the best (lowest) enabled baseline target; HWY_TARGETS always contains it and follows the requested policy (only EMU128/SCALAR/static, all attainable, or the default: attainable targets at least as good as the baseline); configurations are rejected only if no baseline is left or two exclusive policies are requested.",
 ["configurations"], "all combinations of architecture, compiler and version, instruction-set macros, OS and configuration macros",
 "Tests are built for one architecture with one or two compilers and the default policy; every other branch of the selection is never even compiled.",
 ["hwy/detect_targets.h", "hwy/detect_compiler_arch.h"], [("targets of a translation unit", "HWY_BASELINE_TARGETS / HWY_STATIC_TARGET / HWY_TARGETS")])
prop("P44", "Run-time detection and dispatch pick the best usable target on every architecture",
 "On every architecture, run-time detection reports a target as supported only if the processor reports all the features (and vector length) which that target requires, so dispatch never runs code the processor cannot execute; among the targets which are compiled in, supported and not disabled, every dynamic call and exported table runs the best one, in the documented order, and otherwise the static target. Each target's namespace, name, vector-size and capability macros describe that same target, and disabling or mocking targets takes effect on the next call.",
 ["configurations", "histories"], "all architectures, policies, capability bits reported by the OS, vector lengths, and histories of disable/mock/call",
 "Tests run on a single machine of one architecture; detection and dispatch code for the others is never executed, and on the test machine only its own capabilities occur.",
 ["hwy/targets.cc", "hwy/targets.h", "hwy/foreach_target.h", "hwy/highway.h", "hwy/ops/set_macros-inl.h"], [("detection and choice", "DetectTargets / SupportedTargets / HWY_CHOOSE_TARGET_LIST / HWY_DYNAMIC_DISPATCH")])
prop("P45", "Performance counters report what the kernel counted, extrapolated, or nothing",
 "Whatever events, group sizes and privileges the kernel offers, initialization opens every counter the kernel is able to count exactly once and reports false if there is none; counters start stopped; starting, stopping and resetting affect all of them. A reading is valid only for counters which were read successfully, their value is the number of events since the last reset scaled by the time the counter was enabled over the time it was running, and the maximum factor is reported; invalid counters read as zero and are not visited. Interruptions and short reads change nothing, unavailable counters never abort the program.",
 ["fault_sequences", "histories"], "all kernels (countable events, group capacities, refusals), multiplexing histories, interruptions, short and failing reads",
 "The test returns immediately where counters are unavailable (containers, virtual machines) and otherwise sees one kernel and one processor.",
 ["hwy/perf_counters.cc", "hwy/perf_counters.h"], [("group packing and reading", "PMU::Init / ReadBytes / ReadAndExtrapolate / Read"), ("interface", "PerfCounters")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
