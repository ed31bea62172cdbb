"""which workload and which oracle classes decide each property"""
from seqrun import seq, FUNC
S = "import:8 zero:1 identity:1"
S2 = "import:8 zero:1 identity:1 set_element:2 transpose_new:1 copy_new:1 block_matrix:1"
RULE = "random operation sequences (constructor phase, then operations of the property interleaved with state-building operations) on up to 6 live matrices, over 4 formats x 4 precisions, sizes 1..20, six value distributions, twelve sparsity shapes, 1..3 threads; every operation is checked against an extended-precision reference model and all other live matrices are re-observed. A case is non-trivial when at least one operation of the property ran and some live matrix is non-zero; distinct by hash of the operation history and final structures."
ALL = "import export zero identity banded random noinit block_matrix clear drop introspect set_element set_element_new set_row set_diagonal getters copy_new copy convert domain add add_norm add_identity scale_add_identity multiply multiply_x2 multiply_AB multiply_adjust element_multiply scale_new scale scale_inplace threshold threshold_new transpose transpose_new transpose_triangle adjungate_triangle reorder trace trace_mult sum_squares sum_squares2 sum_AB sum_squares_submatrix fnorm fnorm2 gershgorin gershgorin_partial normalize accumulate_offdiag diagonalize inverse inverse_singular extract_submatrix submatrix_index adjacency adjacency_group group_matrix file"
GROW = "import set_element set_element_new set_row set_diagonal add add_norm add_identity scale_add_identity multiply multiply_x2 multiply_AB multiply_adjust transpose transpose_new extract_submatrix submatrix_index copy convert adjungate_triangle normalize reorder threshold_new scale_new file inverse"
def P(parts, rule=RULE, **kw): return dict(parts=parts, rule=rule, **kw)
def simple(own, q=26000, t=300000, setup=S2, big=True, **kw):
    a = seq(own, q, t, setup=setup, **kw)
    if not big: return a
    b = seq(own, max(120, q // 40), t // 40, setup=setup, **dict(kw, nmax=68, nmin=21, maxthr=6, mx=min(kw.get("mx", 6), 5)))   # long rows, big blocks, many rows per thread
    c = seq(own, max(96, q // 80), t // 60, setup=setup, timeout=120, **dict(kw, nmax=170, nmin=69, maxthr=8, mx=min(kw.get("mx", 4), 4)))
    d = seq(own, 40, t // 200, setup=setup, timeout=240, **dict(kw, nmax=300, nmin=171, maxthr=8, mn=1, mx=2))
    e = seq(own, max(200, q // 4), t // 4, setup=setup, **dict(kw, mmode=3, types=kw.get("types", 15) & 6)) if kw.get("types", 15) & 6 and "adjacency" not in own else (lambda res: None)   # every matrix has a row capacity of its own
    f = seq(own, max(200, q // 10), t // 10, setup=setup, **dict(kw, kind="alt", maxthr=1, types=kw.get("types", 15) & 12)) if kw.get("types", 15) & 12 else (lambda res: None)   # without OpenMP, ellblock blocks from memory pools
    g = seq(own, 24, t // 1500, setup=setup, timeout=300, **dict(kw, nmax=560, nmin=301, maxthr=8, mn=1, mx=2))
    h = seq(own, max(240, q // 25), t // 25, setup=setup, timeout=60, **dict(kw, nmax=12, mn=16, mx=40))   # long histories
    def both(res): a(res); b(res); c(res); d(res); e(res); f(res); g(res); h(res)
    return both
OMPALL = " ".join(x + (":1" if x in ("import", "export", "zero", "identity", "noinit", "clear", "drop", "introspect", "getters", "domain", "file", "diagonalize", "inverse", "inverse_singular", "set_element", "set_element_new") else ":3") for x in ALL.split())
DISTOPS = "diagonalize:1 import export zero identity random noinit clear introspect set_row set_diagonal getters copy_new copy convert add add_norm add_identity scale_add_identity multiply multiply_x2 multiply_AB scale_new scale scale_inplace threshold threshold_new transpose transpose_new trace trace_mult sum_squares sum_squares2 sum_AB fnorm gershgorin normalize file drop"
DSET = "import:8 zero:1 identity:1 transpose_new:1"
XSET = "import:8 zero:1 identity:1 set_element:2 threshold:1"
MPC = FUNC | {"message", "deadlock", "leak"}
XN = "exchange shift bcast send recv irecv recv_matrix init shutdown".split()
RN = "reduce partition gather partial sum_reduce min_reduce max_reduce init shutdown".split()
MPRULE = "random operation histories executed by 1, 4, 9 or 16 real processes linked against a stand-in MPI library whose seeded scheduler decides which rank runs, whether a send waits for its receiver, when a message is packed and delivered; it checks every call against the MPI contract (matching type and length, buffers untouched while a request is pending, requests completed, equal collective order, no message or communicator left at shutdown, deadlock). Matrices are gathered and compared with the extended-precision reference model on every rank. Non-trivial when the property's operation ran on a non-zero matrix; distinct by hash of message schedule and history."
OSET = "import:8 zero:1 identity:1 transpose_new:1 set_element:1"
CHEAP = "add:2 add_norm:2 add_identity scale_add_identity element_multiply scale_new scale scale_inplace threshold threshold_new:2 transpose:2 transpose_new:2 transpose_triangle adjungate_triangle reorder trace:2 trace_mult:2 sum_squares:2 sum_squares2:2 sum_AB:2 sum_squares_submatrix fnorm:2 fnorm2 gershgorin:2 gershgorin_partial normalize accumulate_offdiag copy_new copy convert banded identity clear set_diagonal group_matrix adjacency submatrix_index extract_submatrix"
PROFILES = {
 "C01": P([simple("import:3 export:4", setup="import:8 zero:1 identity:1 set_element:2 transpose_new:1 copy:1 block_matrix:1")]),
 "C02": P([simple("set_element:4 set_element_new:2 set_row:3 set_diagonal:3 getters:4", setup="import:6 zero:2 noinit:1 transpose:1 block_matrix:1")]),
 "C03": P([simple("copy_new:3 copy:4 convert:5 domain:1", setup="import:8 zero:1 identity:1 set_element:2 transpose:1 scale_inplace:1 block_matrix:1")]),
 "C04": P([simple("add:5 add_norm:3 add_identity:3 scale_add_identity:3")]),
 "C05": P([simple("multiply:5 multiply_x2:3 multiply_AB:3 multiply_adjust:2 element_multiply:2")]),
 "C06": P([simple("scale_new:2 scale:3 scale_inplace:2 threshold:3 threshold_new:3", setup="import:8 zero:1 identity:1 set_element:2 transpose_new:1 add:1 block_matrix:1")]),
 "C07": P([simple("transpose:3 transpose_new:3 transpose_triangle:2 adjungate_triangle:2 reorder:3", setup="import:8 zero:1 identity:1 set_element:2 copy_new:1 block_matrix:1")]),
 "C08": P([simple("trace:2 trace_mult:3 sum_squares:2 sum_squares2:2 sum_AB:2 sum_squares_submatrix:2 fnorm:2 fnorm2:2")]),
 "C09": P([simple("gershgorin:4 gershgorin_partial:3 normalize:3 accumulate_offdiag:2")]),
 "C10": P([simple("diagonalize:1", q=14000, t=150000)]),
 "C11": P([simple("inverse:4 inverse_singular:1", q=14000, t=150000)]),
 "C12": P([simple("extract_submatrix:3 submatrix_index:4")]),
 "C13": P([simple("adjacency:3 adjacency_group:3 group_matrix:3", types=2, setup="import:8 zero:1 identity:1 set_element:3 transpose_new:1 reorder:1")]),
 "C14": P([simple("zero:2 identity:2 banded:2 random:2 noinit:1 block_matrix:1 clear:3 introspect:4", setup="import:8 zero:1 identity:1 set_element:2 transpose_new:1 add:1")]),
 "C15": P([simple(ALL, q=26000, names="ALL", classes={"struct", "read"}, flags=4, mx=8), simple(ALL, q=3000, names="ALL", classes={"struct", "read"}, flags=4, mmode=1)]),
 "C16": P([simple(ALL, q=30000, names="ALL", classes={"mem", "leak", "hang"}, mx=8), simple(ALL, q=3000, names="ALL", classes={"mem", "leak", "hang"}, mmode=1)]),
 "C17": P([simple(GROW, q=7000, mmode=2, setup=S, names="ALL", classes={"value", "struct", "mem", "hang"}), simple(GROW, q=5000, mmode=1, setup=S, names="ALL", classes={"value", "struct", "mem", "hang"}), seq(GROW, 6000, 80000, mmode=3, types=6, setup=S, names="ALL", classes={"value", "struct", "mem", "hang"})]),
 "C18": P([simple(ALL, q=30000, names="ALL", classes={"const"}, mx=8)]),
 "C19": P([simple("file:1", q=18000)]),
 "C20": P([seq("hostile_file:1", 36000, 200000, setup=S, mn=1, mx=3, nmax=14), seq("hostile_file:1", 800, 8000, setup=S, mn=1, mx=3, nmin=20, nmax=40)],
            rule="a valid Matrix Market file of a random matrix is damaged (indices, counts, header, tokens, lines, bytes, truncation, overlong tokens, missing file, directory, random bytes) and read into a fresh or filled matrix of every format and precision under AddressSanitizer/UBSan and a watchdog; the outcome must be a reported error or a matrix whose storage walks well formed and survives export, row reads, transposition and clearing. Distinct by hash of the file mutation and history; non-trivial when a read was attempted and a live matrix is non-zero."),
 "C29": P([simple(ALL, q=1000, t=15000, oom=12, setup=S, mn=1, mx=3, nmax=8, names="ALL", classes={"oom"}, maxthr=1, big=False), seq(GROW, 1500, 20000, oom=16, setup=S, mmode=1, types=4, mn=1, mx=4, nmax=18, names="ALL", classes={"oom"}, maxthr=1), seq(ALL, 600, 8000, oom=12, setup=S, mmode=2, mn=1, mx=3, nmax=8, names="ALL", classes={"oom"}, maxthr=1),
            seq("memory:1", 400, 8000, oom=16, setup="import:1", mn=1, mx=2, nmax=4, names="ALL", classes={"oom"}, maxthr=1)], level="fault_enumeration"),
 "C30": P([seq("memory:1", 6000, 60000, setup="import:1", types=15, mn=1, mx=2, nmax=4, asan_extra=":max_malloc_fill_size=2000000:malloc_fill_byte=171:quarantine_size_mb=1"),
            seq("big_memory:1", 6, 60, setup="import:1", types=15, mn=1, mx=1, nmax=4, names=["memory", "big_memory"], timeout=120, asan_extra=":quarantine_size_mb=1")],
            rule="random sequences of allocate / noinit / reallocate / free / free_ptr calls on up to ten live blocks with sizes around word, cache line, page and power-of-two boundaries; the allocator pre-fills every fresh block with garbage; every byte of every live block is compared after every call, alignment, overlap and the allocation ledger are checked. Distinct by hash of the call history."),
 "C23": P([seq(DISTOPS, 4500, 70000, setup=DSET, kind="mpisim", extra_args=("--mp", "1"), maxthr=2, mx=7, classes=MPC, timeout=60),
            seq(DISTOPS, 1200, 12000, setup=DSET, kind="mpisim", extra_args=("--mp", "1"), maxthr=2, mmode=1, classes=MPC, timeout=60),
            seq(DISTOPS, 200, 2500, setup=DSET, kind="mpisim", extra_args=("--mp", "1"), maxthr=3, nmin=21, nmax=48, mx=4, classes=MPC, timeout=120)], rule=MPRULE),
 "C24": P([seq("exchange:4 shift:3 bcast:3", 3500, 60000, setup=XSET, kind="mpisim", extra_args=("--mp", "2"), maxthr=2, mx=4, classes=MPC, names=XN, timeout=60),
            seq("exchange:4 shift:3 bcast:3", 1200, 12000, setup=XSET, kind="mpisim", extra_args=("--mp", "2"), maxthr=2, mx=4, mmode=1, classes=MPC, names=XN, timeout=60),
            seq("exchange:4 shift:3 bcast:3", 800, 12000, setup=XSET, types=4, kind="mpisim", extra_args=("--mp", "2"), maxthr=2, mx=4, mmode=3, classes=MPC, names=XN, timeout=60),   # row capacities of their own
            seq("exchange:4 shift:3 bcast:3", 160, 2000, setup=XSET, kind="mpisim", extra_args=("--mp", "2"), maxthr=2, mx=3, nmin=21, nmax=60, classes=MPC, names=XN, timeout=120),
            seq(DISTOPS, 1500, 20000, setup=DSET, kind="mpisim", extra_args=("--mp", "1"), maxthr=2, mx=7, classes={"message", "deadlock"}, names="ALL", timeout=60)], rule=MPRULE),
 "C25": P([seq("reduce:2 partition:2 gather:4 partial:3", 4000, 70000, setup=XSET, types=3, kind="mpisim", extra_args=("--mp", "2"), maxthr=2, classes=MPC, names=RN, timeout=60),
            seq("reduce:2 partition:2 gather:4 partial:3", 1500, 15000, setup=XSET, types=3, kind="mpisim", extra_args=("--mp", "2"), maxthr=2, mmode=1, classes=MPC, names=RN, timeout=60),
            seq("reduce:2 partition:2 gather:4 partial:3", 250, 3000, setup=XSET, types=3, kind="mpisim", extra_args=("--mp", "2"), maxthr=3, nmin=21, nmax=60, mx=4, classes=MPC, names=RN, timeout=120)], rule=MPRULE),
 "C27": P([seq("gemm:1", 40000, 400000, setup="import:1", kind="igemm", mn=1, mx=4, nmax=6, names=["gemm"]),
            seq("multiply:3 multiply_x2:2 multiply_AB:2", 4000, 60000, setup=S2, kind="igemm"),
            seq("multiply:3 multiply_x2:2 multiply_AB:2", 150, 3000, setup=S2, kind="igemm", nmin=21, nmax=68, mx=4, maxthr=6)],
            rule="the library is built with its own general matrix multiply instead of the system BLAS; random calls of the kernel with every transpose flag, sizes 0..33, leading dimensions with padding (NaN in the operands, a pattern in the result), factors 0, 1, -1 and general, every precision; the operand arrays end exactly after their last element under AddressSanitizer. Result elements are compared with an extended-precision reference, the padding and the operands byte for byte, and calls with an invalid flag or size must be reported. Then multiplication histories of all formats on that build. Non-trivial when the result has an element; distinct by hash of the history."),
 "C28": P([seq("misuse:1", 60000, 400000, setup="import:4 zero:1 identity:1 set_element:1 transpose_new:1 threshold:1", kind="extra", mn=1, mx=2, nmax=9, names=["misuse"], classes=FUNC | {"mem", "hang"}, maxthr=2),
            seq("misuse:1", 300, 6000, setup="import:4 identity:1", kind="extra", mn=1, mx=2, nmin=20, nmax=70, names=["misuse"], classes=FUNC | {"mem", "hang"}, maxthr=4)],
            rule="a random history builds matrices of every format and precision; then one call gets an invalid argument: a row or column index outside the matrix (-1, N, far outside, extreme integers) in element and row access, no matrix at all (44 entry points), an unknown type, precision or element order, operands of a copy or a trace of different type, precision or size, a file that is not there. The child process must end through the error report of the library with a failing status, without a memory error. Distinct by hash of the call and history; non-trivial when the call was made."),
 "C26": P([seq(ALL, 26000, 300000, setup=S2, kind="fort", names="ALL", classes=FUNC | {"leak"}), seq(ALL, 1200, 20000, setup=S2, kind="fort", names="ALL", classes=FUNC | {"leak"}, mmode=1),
            seq("print:4 log:1", 6000, 60000, setup=S, kind="fextra", nmax=14, classes=FUNC | {"leak"}),
            seq(ALL, 250, 4000, setup=S2, kind="fort", names="ALL", classes=FUNC | {"leak"}, nmin=21, nmax=68, mx=5, maxthr=6)],
            rule="the random histories of the C checks are run through the Fortran interface: every call that has a Fortran entry point goes from the C driver into a thin Fortran routine that calls the public procedure of module bml with its own types (strided array sections and transposed copies for dense arrays, allocatable arrays of a wrong size, keyword and optional arguments present or absent at random) and hands the result back; every result is compared with the reference model that decides the C checks, stored structures are walked, and the library is compiled with gfortran and AddressSanitizer. Non-trivial when an operation ran on a non-zero matrix; distinct by hash of the history."),
 "C31": P([seq("print:4 log:1", 30000, 150000, setup=S2, kind="extra", nmax=14), seq("print:1", 150, 3000, setup="import:4 identity:1", kind="extra", nmin=21, nmax=120, mn=1, mx=3)],
            rule="random histories build matrices of every format and precision; matrices, dense arrays in both orders and vectors are printed with random (also empty) ranges into a captured standard output that is parsed element by element and compared with the observed matrix; log messages of every level with random text, numbers and locations are compared with what was asked for. Non-trivial when an operation ran on a non-zero matrix; distinct by hash of the history."),
 "C21": P([seq(OMPALL, 20000, 300000, setup=OSET, kind="tsan", extra_args=("--shim", "0"), maxthr=8, names="ALL", classes={"race"}, timeout=60),
            seq(OMPALL, 200, 4000, setup=OSET, kind="tsan", extra_args=("--shim", "0"), nmin=24, nmax=70, mx=4, maxthr=16, names="ALL", classes={"race"}, timeout=120)],
            rule="random operation histories on the ThreadSanitizer build whose OpenMP runtime is replaced by plain threads with exactly the ordering OpenMP promises (team start and end, barriers, locks, atomics), team sizes 1..16 and beyond the number of rows, every format and precision. Non-trivial when at least one team of several members ran and some live matrix is non-zero; distinct by hash of history and final structures."),
 "C22": P([seq(OMPALL + " random_repeat:2", 16000, 250000, setup=OSET, kind="shim", extra_args=("--shim", "1"), maxthr=8, names="ALL", classes=FUNC | {"race"}, timeout=60),
            seq(OMPALL, 300, 6000, setup=OSET, kind="shim", extra_args=("--shim", "1"), nmin=24, nmax=70, mx=4, maxthr=12, names="ALL", classes=FUNC | {"race"}, timeout=120),
            seq(CHEAP, 3000, 40000, setup="import:6 identity:1", nmin=64, nmax=150, mn=2, mx=6, maxthr=12, names="ALL", classes=FUNC, timeout=120),
            seq(CHEAP, 400, 8000, setup="import:6 identity:1", kind="shim", extra_args=("--shim", "1"), nmin=64, nmax=100, mn=2, mx=6, maxthr=12, names="ALL", classes=FUNC | {"race"}, timeout=240),
            seq(OMPALL, 160, 4000, setup=OSET, kind="shim", extra_args=("--shim", "1"), nmin=64, nmax=150, mn=1, mx=3, maxthr=12, names="ALL", classes=FUNC | {"race"}, timeout=240)],
            rule="random operation histories on a build in which a seeded scheduler runs one team member at a time and may switch at every memory access, lock, atomic, barrier and member end (random preemption densities per region, team sizes 1..12 and beyond the number of rows); results are compared with the reference model and the stored structure is walked after every call; a failing case is repeated with one thread and counts only if it then passes. Non-trivial when at least one scheduling decision with several choices was taken on a non-zero matrix; distinct by hash of history, results and schedule."),
}
