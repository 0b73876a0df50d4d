NA = {}
CLAIMS = dict(
C01=("exhaustive bounded enumeration of inputs on the real code (round trip oracle)", "exploration",
     "every element of stated product families of lengths, element sizes, contents and levels is compressed and decompressed by the real library; contents outside the families are not covered"),
C03=("exhaustive enumeration of destination sizes over an input family on the real code, with guard pages on both sides of every buffer", "exploration",
     "every destination size (0..bound+) for each input of the family; inputs outside the family are not covered"),
C04=("exhaustive enumeration of truncations, byte and word mutations of valid frames and of all short frames, on the real code under guard pages / ASan", "exploration",
     "every mutation within the stated bounds; combined mutations beyond two sites are not covered"),
C05=("exhaustive enumeration of clock answers (stub clock) on the real code, deviation bounded", "exploration",
     "all clock jump positions within a bound on the number of deviations; large runs stride the positions in the quick tier"),
C06=("explicit-state exploration of operation histories of a context on the real code, checked against a fresh context as reference", "model_checking",
     "all histories up to the stated depth over a fixed alphabet; the reference is the real code with a new context and a parameter model"),
C07=("exhaustive fault injection: every single failing allocation, pairs and all-from-k on the real code", "fault_enumeration",
     "malloc family interposed; failures at allocation granularity for fixed scenarios"),
C08=("explicit-state exploration of operation sequences on the real container, checked step by step against a std::vector model", "model_checking",
     "all sequences up to the stated depth over a fixed alphabet, start states and element types; positions and lengths are chosen around the chunk boundaries"),
C09=("explicit-state exploration of operation sequences on the real container; in every state reached all serialization paths are compared with the model", "model_checking",
     "all sequences up to the stated depth over a fixed alphabet, start states and element types; destination sizes follow the chain of blocks"),
C14=("exhaustive fault injection: every failing allocation, element construction, copy or functor call of every operation on the real container, against a model", "fault_enumeration",
     "one operation per execution from fixed start states; failures of the codec's own malloc inside cvector end the program by design and are not injected"),
C17=("exhaustive enumeration of truncations, byte changes and structural changes of serialized containers, on the real code under guard pages / ASan and a checking allocator", "exploration",
     "every mutation within the stated bounds; combined mutations beyond a block header are not covered"),
C15=("explicit-state exploration of operation sequences on the real container with elements that own tokens and a checking allocator", "model_checking",
     "all sequences up to the stated depth over a fixed alphabet, start states and element types"),
C19=("explicit-state exploration of operation sequences on the real container, counting the decompressed chunks held after every operation", "model_checking",
     "all sequences up to the stated depth over a fixed alphabet on containers of 17 to 41 chunks"),
C02=("stateless model checking of the real code: controlled scheduler, all schedules up to a bound on deviations, vector-clock race detection", "model_checking",
     "all interleavings of fixed scenarios up to 2 (3) deviations from the default schedule, 2 pool workers, sequentially consistent"),
C11=("stateless model checking of the real code: controlled scheduler, all schedules up to a bound on deviations, vector-clock race detection", "model_checking",
     "all interleavings of fixed scenarios up to 1-2 deviations from the default schedule, 2 pool workers, sequentially consistent"),
C10=("stateless model checking of the real code: controlled scheduler, all schedules up to a bound on deviations, vector-clock race detection", "model_checking",
     "all interleavings of fixed scenarios up to the stated number of deviations from the default schedule, sequentially consistent"),
C18=("stateless model checking of the real code: controlled scheduler, all schedules up to a bound on deviations, vector-clock race detection", "model_checking",
     "all interleavings of fixed scenarios up to the stated number of deviations from the default schedule, sequentially consistent"),
C16=("explicit-state exploration of handle and container operation sequences on the real code, checked step by step against a std::vector model", "model_checking",
     "all sequences up to the stated depth over a fixed alphabet, start states and element types"),
C20=("explicit-state exploration of operation sequences on the real code, checked step by step against the bytes counted by the allocator", "model_checking",
     "all sequences up to the stated depth over a fixed alphabet, start states and element types"),
C21=("exhaustive enumeration of inputs, each crossed with all settings of memory contents, alignment, threads and context history of a set, on the real code", "exploration",
     "the inputs of the stated families and the stated settings; the code compiled without interposition of the stack of the pool threads"),
C22=("exhaustive enumeration of families of regular inputs x parameters on the real code against stated limits", "exploration",
     "the stated families; limits leave a margin above what the code reaches, so that a small loss of compression is not a violation"),
C23=("explicit-state exploration of operation histories of a context on the real code, checked against the bytes counted by the interposed allocator, with every allocation failure of the last operation", "model_checking",
     "all histories up to the stated depth over a fixed alphabet"),
C24=("exhaustive enumeration of clock answers (stub clock) and operation sequences on the real code", "exploration",
     "pairs of readings from a set around the boundaries, sequences up to the stated length"),
C25=("explicit-state exploration of operation sequences on the real code with stateful allocators, std::vector as oracle", "exploration",
     "three containers of int64 or unique_ptr, sequences up to the stated depth, all 16 combinations of allocator traits; no fancy pointers"),
C26=("exhaustive enumeration of sequences of iterator operations on the real code over short streams, against the objects written to the stream", "exploration",
     "5 object types, streams of up to 3 objects and a remainder; no stream that fails in the middle of an object"),
C12=("exhaustive enumeration of inputs crossed with all pairs of (encoder, decoder) build variants of the real code", "exploration",
     "8 compile-time instruction set selections and 4 run-time feature masks on one CPU; no ARM or big-endian"),
C13=("exhaustive enumeration of header prefixes, shift bytes and parameters on the real code against an independent description of the format", "exploration",
     "all prefixes of all frames of the family; all values of the header bytes one or two at a time"),
)
