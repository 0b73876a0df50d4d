"""One function per property."""
import os, json, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from .core import *

def exploration(ctx, rule, *merged):
    ctx.level = "exploration"
    ev = sum(m["executed"] for m in merged)
    hs = set()
    for m in merged:
        hs |= m["hashes"]
    stats, samples = {}, []
    for m in merged:
        for k, v in m["stats"].items():
            stats[k] = max(stats.get(k, 0), v) if k.startswith("max_") else stats.get(k, 0) + v
        samples += m["samples"][:: max(1, len(m["samples"]) // 12)]
    ctx.coverage.update(evaluations=ev, distinct_nontrivial=len(hs), rule=rule, samples=samples[:40], exhaustive=not any(m["capped"] for m in merged),
                        enumerated_cases=sum(m["enumerated"] for m in merged), counters=stats)
    if any(m["capped"] for m in merged):
        ctx.coverage["cap"] = "the time cap was hit: only the first part of the enumeration (of each shard) was run"

def c01(ctx):
    objs = build_lib("o2", O2)
    exe = build_exe("codec_rt", ["codec_rt.cpp"], O2, objs, [])
    m = ctx.shards("codec_rt", exe)
    h = ctx.shards("codec_huge", build_exe("codec_huge", ["codec_huge.cpp"], O2, objs, []), nshards=4)
    exploration(ctx, "every element of the product families (lengths around every structural boundary x element sizes x content families x levels; all 2^16 run structures of a "
                "16-byte row x 4 step functions x direct/delta; all value ranges; all pairs of row classes x row positions; all partial-block sizes; all repetition periods). A case is "
                "non-trivial and distinct when its (superblock codes, first block codes, length class) signature is new. Then inputs of 2^31 and 2^32 bytes and a few more or less x levels x "
                "threads, whose middle is a small file mapped many times.", m, h)

def both(ctx, src, name, **kw):
    """runs a harness in the optimised build (guard pages) and in the ASAN+UBSAN build"""
    o = build_exe(name, [src], O2, build_lib("o2", O2), [])
    a = build_exe(name + "_asan", [src], ASAN, build_lib("asan", ASAN), ASAN_LINK)
    ms = [ctx.shards(name, o, **kw), ctx.shards(name + "_asan", a, **kw)]
    if ctx.tier == "thorough":  # the paths without SSE and AVX
        f = [x for x in ASAN if x not in NATIVE] + dict(SIMD)["scalar"]
        ms.append(ctx.shards(name + "_asan_scalar", build_exe(name + "_asan_scalar", [src], f, build_lib("asan_scalar", f), ASAN_LINK), **kw))
    return ms

def c03(ctx):
    ms = both(ctx, "codec_bounds.cpp", "codec_bounds")
    exploration(ctx, "every configuration (element size x length x content family x level x superblock size x threads); for each, every destination size of a dense or stepped set: "
                "all sizes for small inputs, all sizes within 24 bytes of the structural ones otherwise. Source, frame and destination end at inaccessible pages, the source and the "
                "frame are mapped read-only; run once optimised and once under ASAN+UBSAN. A case is distinct and non-trivial when the first 64 bytes of its frame and its length are new.", *ms)

def c04(ctx):
    ms = both(ctx, "codec_bad.cpp", "codec_bad")
    exploration(ctx, "base frames covering every superblock code and many block codes, made by the library itself, x (every truncation, every value of the bytes near the structures and "
                "selected values elsewhere, every pair of superblock code and announced size of a set, announced sizes x superblock sizes, element sizes, the same changes inside a valid "
                "zstd superblock); every superblock body of 0 to 2 bytes (3 bytes partly) x code; every pair of first bytes of a block x fill x size. Frame and destination end at "
                "inaccessible pages; run once optimised and once under ASAN. distinct_nontrivial counts the distinct base frames; 'decodes' counts the calls.", *ms)

def c13(ctx):
    ms = both(ctx, "info.cpp", "info")
    ms.append(ctx.shards("codec_huge", build_exe("codec_huge", ["codec_huge.cpp"], O2, build_lib("o2", O2), []), args="info", nshards=2))
    exploration(ctx, "frames for every level x element size x structural length x superblock size x threads x time limit, every prefix of 0 to 40 bytes given with an inaccessible page "
                "after its last byte; every first byte x header length 0..16 x 20 header patterns x element sizes. Oracle: the known original length, the block shift asked for, and "
                "the superblock chain walked in the frame itself. distinct_nontrivial counts distinct headers.", *ms)

def c21(ctx):
    m = ctx.shards("determ", build_exe("determ", ["determ.cpp"], O2, build_lib("o2", O2), []))
    exploration(ctx, "inputs from the families of C01 on a smaller domain, and custom superblock sizes; each is compressed with five settings of everything that must not matter: content of the heap, "
                "the stack, the destination and the bytes around the source, alignments, number of threads, new contexts and contexts that compressed all inputs before. The frames must be "
                "identical. Distinct = new start of a frame.", m)

def c22(ctx):
    m = ctx.shards("effect", build_exe("effect", ["effect.cpp"], O2, build_lib("o2", O2), []))
    exploration(ctx, "families of regular arrays (equal elements, arithmetic progressions, bytes in a range of 2^k values, constant byte planes, runs of elements) x parameters x element size x "
                "number of elements x level x superblock size x threads x (no time limit, one that is not reached); the size of each frame is compared with the limit of its family, and the frames "
                "of level 0 with the input. Counters max_permille_* tell how close to its limit each family came. Distinct = new start of a frame.", m)

def c23(ctx):
    model(ctx, ctx.shards("ctx_mem", build_exe("ctx_mem", ["ctx_mem.cpp"], O2, build_lib("o2", O2), [])),
          state_definition="distinct (bytes held, bytes reported, outcome of the operations)",
          bounds="all histories of (parameter change, operation) of two rounds over 9 x 16 (thorough 17 x 16), of two changes before and one after an operation, three rounds (thorough four) over 5 x 4, and twelve "
          "times the same operation; the last operation also with all its allocations failing from the first, second, third on (thorough: eight; not in the longest histories). After each history the bytes reported are compared "
          "with the bytes that destroying the context gives back to the interposed allocator, and with a limit given by superblock size and threads")

def c24(ctx):
    m = ctx.shards("timer", build_exe("timer", ["timer.cpp"], O2, build_lib("o2", O2), []))
    exploration(ctx, "the monotonic clock is answered by the explorer, the time of day jumps at every reading: all pairs (start, end) of 247 readings around the second, nanosecond and 2^31, 2^32 "
                "boundaries for the C and the C++ timer; all sequences of 5 (thorough 7) operations tick and tock on two timers x 5 advances of the clock; every failing allocation. Distinct = "
                "new pair of readings.", m)
    ctx.coverage["evaluations"] = ctx.coverage["counters"].get("pairs", 0) + ctx.coverage["counters"].get("transitions", 0)

def c25(ctx):
    objs = build_lib("o2", O2)
    with ThreadPoolExecutor(2) as ex:
        exes = list(ex.map(lambda n: build_exe(n, [n + ".cpp"], O2, objs, []), ["cv_alloc", "cv_alloc_move"]))
    model(ctx, *[ctx.shards(n, e) for n, e in zip(["cv_alloc", "cv_alloc_move"], exes)],
          state_definition="distinct (contents, size and allocators of the containers) after an operation sequence",
          bounds="all 16 combinations of the allocator traits (propagate on copy assignment, move assignment, swap; select_on_container_copy_construction) x (int64, unique_ptr) x "
          "all sequences of copy, move, swap and modify operations (96, of which 23 are used in the longest sequences) on three containers, two of which have equal allocators, from several starts. Oracle: std::vector with the "
          "same allocator; every block must go back with its size to an allocator equal to the one it came from")

def c26(ctx):
    model(ctx, ctx.shards("stream_it", build_exe("stream_it", ["stream_it.cpp"], O2, build_lib("o2", O2), [])),
          state_definition="distinct (object, stream length, sequence of iterator operations) and (length, chunk, operation, position) of cvectors filled from single-pass ranges",
          bounds="objects of 1, 2, 3, 8 and 20 bytes, streams of 0 to 3 objects with every remainder (stepped for 20 bytes), all sequences of 6 (thorough 8) of the operations dereference, ++it, it++, "
          "compare, copy and assign; then construction, assign and insert of cvectors from single-pass iterators for lengths around the chunk boundaries")

def c27(ctx):
    with ThreadPoolExecutor(2) as ex:
        fs = [ex.submit(build_exe, "cv_iter_o2", ["cv_iter.cpp"], O2, build_lib("o2", O2), []), ex.submit(build_exe, "cv_iter_asan", ["cv_iter.cpp"], ASAN, build_lib("asan", ASAN), ASAN_LINK)]
        exes = [f.result() for f in fs]
    model(ctx, ctx.shards("cv_iter", exes[0], nshards=32), ctx.shards("cv_iter-asan", exes[1], nshards=32, args="short"),
          state_definition="distinct (container size, kind of iterator, positions of two iterators, last two operations)",
          bounds="iterator, const_iterator, reverse_iterator and const_reverse_iterator of int32 and 12-byte record containers of 0, 1, 256, 257, 300, 600 and 770 elements, fresh and compressed; two iterators from all "
          "pairs of 8 positions around the ends and the chunk boundaries; all sequences of 3 (from 2 of the pairs of the compressed containers 4; thorough: 4 from all) of 58 operations (moves by 1, 2, 255, 256 and 257, dereference, write, copy, assign, "
          "swap, move, conversion, access to other chunks); after every operation all comparisons and distances, at the end the values and all comparisons of references; address sanitizer up to length 2")

def c05(ctx):
    exe = build_exe("timelimit", ["timelimit.cpp"], O2, build_lib("o2", O2), [])
    m = ctx.shards("timelimit", exe)
    exploration(ctx, "the monotonic clock is interposed and answered by the explorer. Executions = input x limit x constant advance per reading, then every placement of up to 2 "
                "(3 thorough) deviating readings x 6 advances (from nothing to far beyond the limit); positions are strided when a run reads the clock often (counter 'strided'). "
                "Oracle: success within the bound, round trip, and every superblock that starts after a reading beyond the limit is stored. Distinct = new sequence of superblock codes x "
                "superblock in which the limit was crossed. Two-thread configurations run under the free OS schedule.", m)
    ctx.coverage["evaluations"] = ctx.coverage["counters"]["executions"]
    if ctx.coverage["counters"].get("strided"):
        ctx.coverage["exhaustive"] = False
        ctx.coverage["cap"] = "deviation positions are strided in runs with many clock readings"

def model(ctx, *merged, **kw):
    """operation-sequence exploration of the real code against a reference model"""
    exploration(ctx, "", *merged)
    c = ctx.coverage
    ctx.level = "model_checking"
    c["states"] = c.pop("distinct_nontrivial")
    c["transitions"] = c["counters"].get("transitions", 0)
    c["traces_validated_against_impl"] = c.pop("evaluations")
    c.pop("rule")
    c.update(kw)

def c06(ctx):
    exe = build_exe("ctx_history", ["ctx_history.cpp"], O2, build_lib("o2", O2), [])
    a = build_exe("ctx_history_asan", ["ctx_history.cpp"], ASAN, build_lib("asan", ASAN), ASAN_LINK)
    ms = [ctx.shards("ctx_history", exe), ctx.shards("ctx_history_asan", a, args="asan")]
    model(ctx, *ms, bounds="all histories of two rounds (optional parameter change, operation) over 21 parameter changes and 20 operations; all pairs of parameter changes before an "
          "operation, triples before two of them; all histories of three rounds over 7 parameter changes and 7 operations (thorough: four rounds)",
          state_definition="(parameters in the reference model, memory footprint of the context, operation)")

def c07(ctx):
    exe = build_exe("allocfail", ["allocfail.cpp"], O2, build_lib("o2", O2), [])
    m = ctx.shards("allocfail", exe)
    exploration(ctx, "malloc is interposed. For every scenario and phase (creation and compression, decompression): every single failing allocation, every pair of "
                "failing allocations, every point from which all fail (also after an earlier single failure), on a new context and on one already used with other parameters. Single-threaded executions run in a new thread each, multithreaded ones in a new "
                "process each (thread-local state is always new). Oracle: NULL or error or correct data; the same call and another one succeed once memory is available; guard words "
                "intact, no double free, every block allocated inside the calls freed. Non-trivial: at least one allocation did fail.", m)
    ctx.level = "fault_enumeration"
    ctx.coverage["evaluations"] = ctx.coverage["counters"]["evaluations"]

SIMD = [("native", NATIVE), ("avx2", ["-march=x86-64-v3"]), ("avx2nobmi", ["-march=x86-64-v3", "-mno-bmi2", "-mno-bmi"]), ("sse42", ["-march=x86-64-v2"]),
        ("sse41", ["-march=x86-64", "-msse4.1"]), ("ssse3", ["-march=x86-64", "-mssse3"]), ("sse2", ["-march=x86-64"]),
        ("scalar", ["-march=x86-64", "-U__SSE__", "-U__SSE2__", "-U__SSE3__"])]

def simd_libs():
    base = [x for x in COMMON] + ["-O2"]
    vs = [("o2" if n == "native" else n, base + f) if n != "native" else ("o2", O2) for n, f in SIMD]
    build_libs(vs)
    sos = []
    for (n, _), (ln, fl) in zip(SIMD, vs):
        sos.append((n, build_so(ln, fl)))
        if n == "native":
            for mask in (1, 2, 4, 8):
                so = build_so(ln, fl, mask)
                if so:
                    sos.append(("native-mask%d" % mask, so))
    return sos

def c12(ctx):
    sos = simd_libs()
    exe = build_exe("simd_cross", ["simd_cross.cpp"], O2, [], ["-rdynamic"])
    m = ctx.shards("simd_cross", exe, args=",".join("%s=%s" % x for x in sos))
    exploration(ctx, "inputs from the families of C01 on a smaller domain; each is compressed by every build variant (8 instruction set selections at compile time, 4 at run time by hiding "
                "CPU features), every distinct frame is decompressed by every variant. Distinct = new (first codes of the frames, number of different frames, length class).", m)
    ctx.coverage["variants"] = [n for n, _ in sos]
    ctx.assumptions.append("the variants run on this machine's CPU; big-endian and ARM builds are out of reach")

O1 = COMMON + NATIVE + ["-O1"]   # the container is a header full of templates: compile time matters

def parts(name, src, n, san, o=O1):
    """the same source built once per group of element types, in parallel"""
    objs = build_lib("asan", ASAN) if san else build_lib("o2", O2)
    fl, ln = (ASAN, ASAN_LINK) if san else (o, [])
    if not isinstance(n, (list, tuple)):
        n = range(n)
    with ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(lambda k: build_exe("%s%d%s" % (name, k, "_asan" if san else ""), [src], fl + ["-DPART=%d" % k], objs, ln), n))

def cv(ctx, name, args="", n=5, san=False, **kw):
    return [ctx.shards("%s_%s" % (os.path.basename(e), args), e, args=args, **kw) for e in parts(name, name + ".cpp", n, san)]

CV_STATE = "hash of (element type, contents of both containers, bytes held by the allocator) at the end of the sequence"

def prebuild(*calls):
    build_lib("o2", O2); build_lib("asan", ASAN)
    with ThreadPoolExecutor(len(calls)) as ex:
        list(ex.map(lambda a: parts(*a), calls))

def c08(ctx):
    prebuild(("cv_seq", "cv_seq.cpp", 5, False), ("cv_seq", "cv_seq.cpp", 5, True))
    big = build_exe("cv_big", ["cv_big.cpp"], O1, build_lib("o2", O2), [])
    model(ctx, ctx.shards("cv_big", big, nshards=8), *(cv(ctx, "cv_seq") + cv(ctx, "cv_seq", "asan", san=True)), state_definition=CV_STATE,
          bounds="alphabet of 200 operations (max_alphabet) on two containers, 12 start states (sizes 0..1100 around the chunk boundaries; compressed, dirty, decompressed) and 3 of 17 to "
          "41 chunks; quick: all sequences of length 2 for 6 element types (full alphabet), 3 (core alphabet) and 4 (core, one start state); thorough: 3 with the full alphabet, 4 and 5 core; one sequence of 27 operations on containers of 2^31 and 2^32 elements and a few more")

def c15(ctx):
    model(ctx, *cv(ctx, "cv_seq", "c15", (3, 4)), state_definition=CV_STATE,
          bounds="the alphabet of C08 on elements that own a token (copyable, move only) and std::unique_ptr<int>; all sequences of length 2 (full alphabet) and 3 (core); the allocator checks "
          "sizes, guard bytes and double frees; tokens detect a double destruction or the use of a destroyed element, their number is compared with the model after every operation")

def c20(ctx):
    model(ctx, *cv(ctx, "cv_seq", "c20", (0, 2, 4)), state_definition=CV_STATE,
          bounds="the alphabet of C08 on six element types; all sequences of length 1 and 2 (full alphabet) and 3 (core), thorough longer; after every operation the sum of memory_footprint() of both "
          "containers lies between the bytes their allocator handed out and that plus 4 KB per container for the codec context (from level 2 on also its temporary buffers), and "
          "current_compression_ratio() agrees with it; after every sequence and shrink_to_fit compression_ratio() agrees with the block sizes found in the serialized bytes")

def c19(ctx):
    model(ctx, *cv(ctx, "cv_seq", "c19", (2,)), state_definition=CV_STATE,
          bounds="containers of 17 to 41 chunks, all sequences of length 1 (full alphabet) and 2 (core), thorough: 2 (full) and 3 (core); after every operation the number of blocks at least as "
          "big as a chunk held by the allocator is at most 8 for two containers, and 1 after shrink_to_fit of the only one")

def c09(ctx):
    prebuild(("cv_ser", "cv_ser.cpp", 3, False), ("cv_ser", "cv_ser.cpp", 3, True))
    big = build_exe("cv_big", ["cv_big.cpp"], O1, build_lib("o2", O2), [])
    model(ctx, ctx.shards("cv_big_ser", big, args="ser", nshards=4), *(cv(ctx, "cv_ser", "", 3) + cv(ctx, "cv_ser", "asan", 3, san=True)), state_definition=CV_STATE,
          bounds="12 start states and 3 of 17 to 41 chunks; sequences of length 0, 1 (full alphabet) and 2 (core), thorough: 2 (full) and 3 (core); in every state reached: serialize to a buffer and "
          "to a stream, decode with stenos_decompress, deserialize into new and used containers, two containers in one stream, every destination size of a set that follows the chain of blocks, "
          "and all of it again while a reference is held and written through")

def c14(ctx):
    m = cv(ctx, "cv_fail", "", 3)
    exploration(ctx, "start state x operation x every injection point (an allocation of the container's allocator, a construction, copy or assignment of an element, a call of a functor): a single "
                "failure, and every point from which all allocations fail. Dense for the first 300 points of an execution, then with a growing stride (counter 'strided'). Oracle: the exception "
                "reaches the caller, the elements that are alive and the allocated memory agree with the container, push_back and emplace_back have no effect, untouched elements keep "
                "their value, the container passes a set of operations afterwards (up to four sets for the first 12 points and the last two of an operation: the operation again, removing and appending around the place of the failure, compressing, swapping and clearing) and its destruction leaves nothing. A case is distinct when (type, start state, operation) is new.", *m)
    ctx.level = "fault_enumeration"
    if ctx.coverage["counters"].get("strided"):
        ctx.coverage["exhaustive"] = False

def c17(ctx):
    prebuild(("cv_bad", "cv_bad.cpp", 3, False), ("cv_bad", "cv_bad.cpp", 3, True))
    exploration(ctx, "frames serialized from containers of 5 element types and 7 sizes x (every truncation, also of a stream that breaks; every value of the bytes of the header and of the block "
                "headers, selected values or all values elsewhere; blocks removed, repeated, exchanged; announced sizes x superblock sizes; block codes x announced block sizes); short inputs; "
                "frames of the codec with other parameters; each given as a buffer that ends at an inaccessible page and as a stream, to new, filled, modified and moved-from containers, then "
                "push_back, clear and refill, deserialize valid data, read, destroy, under a checking allocator; once optimised and once under ASAN. distinct_nontrivial counts distinct byte strings "
                "(lower bound: a shard reports at most 20000).", *(cv(ctx, "cv_bad", "", 3) + cv(ctx, "cv_bad", "asan", 3, san=True)))

# ---- concurrency: every thread of the real code runs under a controlled scheduler (harness/mc.hpp)
MC = [f for f in COMMON if f != "-fno-gnu-unique"] + ["-O1", "-g1", "-march=x86-64-v2", "-fsanitize=thread", "-mllvm", "-tsan-distinguish-volatile=1",
      "-mllvm", "-tsan-instrument-func-entry-exit=0"]
MC_RT = ["-std=c++14", "-O2", "-w", "-fPIC"]

def mc_exe(name):
    return build_exe(name, [name + ".cpp", ("mc_rt.cpp", MC_RT)], MC, build_lib("mc", MC, "clang++"),
                     ["-Wl,--wrap=ZSTD_compressCCtx", "-Wl,--wrap=ZSTD_decompress"], cxx="clang++")

def schedules(ctx, exe, prefixes, bounds):
    m = ctx.shards("%s_%s" % (exe, prefixes.replace(",", "_")), mc_exe(exe), args=prefixes, nshards=64)
    exploration(ctx, "", m)
    c = ctx.coverage
    st = c["counters"]
    ctx.level = "model_checking"
    c.pop("rule")
    c["states"] = c.pop("distinct_nontrivial")
    c["transitions"] = st.get("scheduling_points", 0)
    c["schedules"] = c["traces_validated_against_impl"] = c.pop("evaluations")
    c["state_definition"] = "distinct sequence of (thread, synchronisation operation) of a whole execution"
    c["deviation_bounds"] = {k[len("max_deviations_"):]: v for k, v in st.items() if k.startswith("max_deviations_")}
    c["distinct_outcomes"] = {k[len("max_outcomes_"):]: v for k, v in st.items() if k.startswith("max_outcomes_")}
    c["counters"] = {k: v for k, v in st.items() if not k.startswith(("max_deviations_", "max_outcomes_"))}
    c["bounds"] = bounds + " For every scenario all schedules up to the number of deviations listed in deviation_bounds are executed: a deviation runs another enabled thread than the " \
        "default one at a scheduling point (lock, unlock, wait, notify, start, join, atomic operation, first volatile access, yield), wakes another waiter, or wakes one spuriously. " \
        "Every execution is checked for data races with vector clocks, for deadlock and livelock, and against the sequential result."
    ctx.assumptions += ["sequentially consistent interleavings; the memory order arguments of atomics feed the race detector but weak values are not explored",
                        "the worker pool has 2 threads", "zstd is not instrumented: its calls are atomic, reads of its source and writes of its destination are reported to the race detector"]

def c02(ctx):
    schedules(ctx, "mc_codec", "mt", "34 scenarios: compression and decompression with 2 to 8, 17 and 33 threads, 2 to 40 superblocks, levels 0 to 5, time limited, too small destinations, invalid frames, reuse of a context.")

def c11(ctx):
    schedules(ctx, "mc_codec", "two,three", "13 scenarios with 2 or 3 caller threads, each with its own context (simple functions, contexts with 1 to 3 threads, cvectors, invalid frames, small destinations).")

def c10(ctx):
    schedules(ctx, "mc_cv", "read", "16 scenarios with 2 or 3 reading threads (operator[], at, held references, iterators, const_for_each variants, copy) on 3 chunks of which 2 fit in memory.")

def c18(ctx):
    schedules(ctx, "mc_cv", "foreach", "10 scenarios with 2 or 3 threads running mutable and const for_each variants on overlapping, opposite, disjoint and stopping ranges of up to 4 chunks.")

def c16(ctx):
    lib = build_lib("o2", O2)
    exe = build_exe("cv_ref", ["cv_ref.cpp"], O2, lib, [])
    a = build_exe("cv_ref_asan", ["cv_ref.cpp"], ASAN, build_lib("asan", ASAN), ASAN_LINK)
    model(ctx, ctx.shards("cv_ref", exe, nshards=32), ctx.shards("cv_ref_asan", a, args="asan"), state_definition=CV_STATE,
          bounds="3 slots that hold references, const references, iterators, const iterators or copies of references over two containers; alphabet of 57 operations (hold, release, read and write through "
          "a slot, assignments and swaps between slots and elements of either container, evictions, appends, shrink_to_fit, serialize); all sequences of length 3 that start with a hold from all start "
          "states and types, length 4 from one (thorough: 5, reduced alphabet); every live handle is read after every operation, and compared with a std::vector model at the end")

CHECKS = dict(C02=c02, C10=c10, C11=c11, C16=c16, C18=c18, C17=c17, C09=c09, C14=c14, C08=c08, C15=c15, C19=c19, C20=c20, C21=c21, C22=c22, C23=c23, C24=c24, C25=c25, C26=c26, C27=c27, C01=c01, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C12=c12, C13=c13)

def replay(path):
    r = json.load(open(path))
    print(json.dumps(r, indent=1))
    ctx = Ctx("replay", r.get("tier", "quick"), 1)
    exes = glob.glob(os.path.join(BUILD, "exe-*", r["exe"]))
    if not exes:
        print("run the check first: its build is gone"); return 2
    exe = max(exes, key=os.path.getmtime)
    e = dict(os.environ); e.update(SAN_ENV)
    a = r["base"] + (["--shard", str(r["shard"])] if r.get("needs_whole_shard") else ["--shard", "0", "--case", r["case"]])
    return subprocess.run([exe] + a, env=e).returncode

def build_all():
    build_lib("asan", ASAN)
    simd_libs()
    return 0
