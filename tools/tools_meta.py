TECH2 = {
 "C23": "runtime monitoring: histories on distributed matrices over 1..16 processes on a schedule-controlling stand-in MPI with a contract monitor (ASan+UBSan), gathered result checked against the reference model after every call",
 "C24": "runtime monitoring: message-ledger, deadlock and buffer-discipline monitors in a stand-in MPI with seeded schedules and synchronous sends; received matrices compared element by element (ASan+UBSan)",
 "C25": "runtime monitoring: partition arrays, reduced values and gathered rows checked on every rank over a schedule-controlling stand-in MPI (ASan+UBSan)",
 "C21": "ThreadSanitizer (happens-before race detection) over random operation histories with the OpenMP runtime replaced by an instrumented pthread team",
 "C22": "runtime monitoring under a seeded preemptive scheduler (switch points at every memory access of the team), reference-model and structure monitors on every call",
 "C20": "runtime monitoring under AddressSanitizer/UBSan: mutated Matrix Market files read by the real readers, structure monitor and watchdog decide",
 "C26": "runtime monitoring: random operation histories executed through the Fortran module (gfortran, ASan+UBSan), every result compared with the reference model that judges the C interface",
 "C27": "runtime monitoring: the kernel and the multiplications built on it are run in the build with the built-in BLAS (ASan+UBSan), every result compared with an extended-precision reference, padding and operands byte for byte",
 "C28": "runtime monitoring: hostile calls on random histories in forked children under ASan+UBSan; a monitor demands the error report and the failing status of the library",
 "C31": "runtime monitoring: captured standard output parsed and compared with the observed matrix and the requested message (ASan+UBSan)",
 "C29": "fault injection: every allocation request of a history fails in turn (linker-wrapped allocator) in the ASan build; a monitor demands a reported error",
 "C30": "runtime monitoring: byte-exact content, alignment, overlap and ledger monitors over random allocator call sequences under AddressSanitizer",
}
NOTE2 = {
 "C23": "Held on the histories and schedules counted in the evidence file. The MPI library is a stand-in (harness/mpi_sim) with the semantics the standard promises, not a production MPI; ScaLAPACK and BLACS are stand-ins (harness/mpi_sim/scalapack.c) with the documented contract over LAPACK.",
 "C24": "Held on the histories and schedules counted in the evidence file. The MPI library is a stand-in (harness/mpi_sim): any send may be synchronous and packing may be delayed until the matching receive.",
 "C25": "Held on the histories and schedules counted in the evidence file, up to 16 ranks. Only dense and ellpack matrices can be row-decomposed in this code base.",
 "C21": "Happens-before detection: independent of timing for the accesses executed, but an access pair ordered by an unrelated lock hand-over in the observed run can be missed; accesses inside OpenBLAS/LAPACK are not seen. SIMD and target regions are not used in this configuration.",
 "C22": "Held on the schedules counted in the evidence file; switch points are the library's own memory accesses and synchronisation, sequentially consistent execution is assumed (races are C21's matter).",
 "C20": "Held on the damaged files counted in the evidence file; a file whose damage keeps it readable is only required to give well-formed storage, not particular values.",
 "C26": "Held on the histories counted in the evidence file. Entry points without a Fortran counterpart (25 of the C operations of the workload) are called directly; the typed element reader of the Fortran side exists for dense and ellpack only.",
 "C27": "Held on the calls counted in the evidence file. Only the general multiply has a built-in version that the build option selects; other BLAS and LAPACK calls stay with the system library in that build.",
 "C28": "Covers the arguments the library promises to check: indices of element and row access, unknown type, precision and element order, missing matrix, operands of bml_copy and bml_trace_mult, unopenable files. Operands of different type or size in other binary operations are not claimed: the library documents no check there.",
 "C29": "For each history, up to 12 allocation requests (all of them when there are no more) fail one at a time; only single failures are injected, allocations inside OpenBLAS/LAPACK and libgomp are not.",
 "C30": "Default build configuration (posix_memalign); alignment of reallocated blocks is not claimed.",
}
NA = {}
