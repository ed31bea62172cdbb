#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
C='src/C-interface/'
def fam(stem, kinds=('dense','ellpack','csr','ellblock'), typed=True, extra=()):
    fs=[f'{C}bml_{stem}.c']
    for k in kinds:
        fs.append(f'{C}{k}/bml_{stem}_{k}{"_typed" if typed else ""}.c')
    return fs+list(extra)
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=hook
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

p('C01','Dense import and export reproduce the array',
 'Importing a plain dense array into any storage format and precision, in row- or column-major order, gives a matrix in which every element whose magnitude exceeds the threshold equals the array element at the same position and, in the element-wise sparse formats, every other element reads as zero (dense and block-wise storage may keep elements at or below the threshold). Exporting any matrix, in either order, returns exactly the elements the matrix holds, with zero for everything not stored. Import followed by export at threshold zero is the identity.',
 ['inputs','configurations'],'every N, M >= required, format, precision, element order, threshold (ties included) and array content (zeros, negatives, complex, huge and tiny values)',
 'The import/export tests use one random 4-element-wide pattern per format and precision; they never vary size, order against asymmetry, threshold ties or sparsity.',
 fam('import')+fam('export')+[C+'bml_allocate.c'],
 [('import converters',C+'*/bml_import_*_typed.c'),('export converters',C+'*/bml_export_*_typed.c'),('threshold predicate','src/typed.h')],
 ['bml_import_from_dense','bml_export_to_dense','stored matrix structure'])
p('C02','Element, row and diagonal access behaves like an N by N array',
 'After any sequence of element, row and diagonal writes, reading an element, row or diagonal returns the last value written to that position (zero if never written), for every format and precision. A write never changes any other position, a row or diagonal write replaces the whole row or diagonal (a value at or below its threshold may be kept or become zero), and rewriting the same position any number of times does not consume capacity.',
 ['histories','inputs'],'every interleaving of set_element, set_row, set_diagonal, get_element, get_row, get_diagonal and per-precision element getters, on empty, partially and completely filled rows',
 'The setter tests write each position at most once into an empty matrix; overwrite histories, empty rows and full rows are never sampled.',
 fam('setters')+fam('getters')+[C+'bml_elemental.c',C+'ellpack/bml_elemental_ellpack.c',C+'dense/bml_elemental_dense.c'],
 [('setters',C+'*/bml_setters_*_typed.c'),('getters',C+'*/bml_getters_*_typed.c')],['bml_get_element','bml_get_row','bml_get_diagonal'])
p('C03','Copies and conversions are equal and independent',
 'Copying a matrix, into a new or an existing matrix with any previous content, or converting it to another format or precision, yields a matrix with the same size, the requested format and precision, and the same elements up to rounding in the target precision. Source and result share no storage: modifying or freeing either never changes the other. Saving and restoring a domain decomposition gives back the saved one.',
 ['histories','inputs','configurations'],'every pair of formats and precisions, every content, and every later mutation of either matrix',
 'The convert test goes one way through two formats in one precision with one matrix, and the copy test never overwrites a non-empty target or mutates after copying.',
 fam('copy')+fam('convert',kinds=('dense','ellpack','csr','ellblock'))+[C+'distributed2d/bml_convert_distributed2d.c'],
 [('copy',C+'*/bml_copy_*_typed.c'),('convert dispatch',C+'bml_convert.c')],['element reads of both matrices','allocation trace'])
p('C04','Matrix addition computes the linear combination',
 'Adding B to A with factors alpha and beta leaves A holding alpha*A + beta*B element by element, with results at or below the threshold at most dropped in sparse formats; the norm-reporting variant leaves the same matrix. Adding a multiple of the identity, with or without scaling the matrix first, changes A to alpha*A + beta*I. Factors of zero, negative factors, disjoint and overlapping patterns and repeated additions are all covered.',
 ['inputs','histories'],'every alpha, beta, threshold, sparsity pattern of both operands, precision and format, over repeated calls on the same matrix',
 'Each add test uses one alpha/beta/threshold and one random dense pattern; pattern mismatches, zero factors and repeated use of the same target are never sampled.',
 fam('add'),[('add',C+'*/bml_add_*_typed.c')],['matrix elements after each call'])
p('C05','Matrix products are the mathematical products',
 'Multiplication leaves C holding alpha*A*B + beta*C, the plain product and square hold A*B and X*X, and the element-wise product holds A_ij*B_ij, each element being right up to rounding and the given threshold. The square returns the traces of X and of X*X (up to what the threshold may drop). This holds for every alpha, beta, threshold, sparsity pattern, precision and format, including zero rows, full rows and A and B being the same matrix.',
 ['inputs','histories','configurations'],'every operand pattern and size, alpha, beta and threshold, precision and format, and any previous content of the target',
 'The multiply tests use one fixed alpha/beta and random dense operands of one size, so empty rows, cancellation, stale target content and thresholds between magnitudes are never exercised.',
 fam('multiply')+fam('element_multiply',kinds=('dense','ellpack','csr')),[('multiply kernels',C+'*/bml_multiply_*_typed.c'),('element multiply',C+'*/bml_element_multiply_*_typed.c')],['target elements','returned traces'])
p('C06','Scaling and thresholding act on every element and nothing else',
 'Scaling (in place, into an existing matrix, or into a new one) multiplies every element by the factor, and leaves the source unchanged unless it is the target. Thresholding, in place or into a new matrix, zeroes exactly the elements whose magnitude does not exceed the threshold and keeps every other element unchanged at its position (block-wise storage may decide per block).',
 ['inputs','histories'],'every factor (zero, negative, one), threshold (zero, ties, larger than everything), sparsity pattern, precision and format',
 'The scale and threshold tests use one factor and one threshold on one full random matrix.',
 fam('scale')+fam('threshold'),[('scale',C+'*/bml_scale_*_typed.c'),('threshold',C+'*/bml_threshold_*_typed.c')],['matrix elements'])
p('C07','Transposition, symmetrisation and reordering permute exactly',
 'Transposing, in place or into a new matrix, moves element (i,j) to (j,i) and applied twice is the identity. Mirroring a triangle makes the chosen triangle the (conjugate) mirror of the other and leaves the other triangle unchanged. Reordering by a permutation moves element (i,j) to position (perm[i],perm[j]), losing and duplicating nothing.',
 ['inputs','histories','schedules'],'every sparsity pattern (asymmetric, empty rows, full rows), permutation, triangle choice, precision and format',
 'The transpose tests use a full random matrix; in-place transposition of structurally asymmetric matrices and reordering are never tested.',
 fam('transpose')+[C+'bml_transpose_triangle.c',C+'dense/bml_transpose_triangle_dense_typed.c',C+'bml_adjungate_triangle.c',C+'dense/bml_adjungate_triangle_dense_typed.c',C+'ellpack/bml_adjungate_triangle_ellpack_typed.c']+fam('copy',kinds=('dense','ellpack')),
 [('transpose',C+'*/bml_transpose_*_typed.c'),('reorder',C+'*/bml_copy_*_typed.c')],['matrix elements'])
p('C08','Traces and norms equal their definitions',
 'The trace is the sum of the diagonal, the trace of a product is the (real part of the) trace of A*B, the sum of squares and Frobenius norm use squared magnitudes over all elements, the two-matrix forms measure alpha*A + beta*B and A - B, and the submatrix form counts exactly the elements in the leading core rows and core columns. Each is right up to rounding for every sparsity pattern, sign, precision and format, and complex data. None of them modifies its operands.',
 ['inputs','configurations'],'every operand content, pattern mismatch between the operands, alpha, beta, core size and threshold',
 'The norm and trace tests compare on one full real matrix per format, where element-wise and true trace agree and patterns coincide; complex magnitudes, asymmetric operands and disjoint patterns are never sampled.',
 fam('norm')+fam('trace'),[('norms',C+'*/bml_norm_*_typed.c'),('traces',C+'*/bml_trace_*_typed.c')],['returned scalars'])
p('C09','Spectral bounds enclose the spectrum and normalisation maps into [0,1]',
 'The Gershgorin bounds of a matrix are the minimum and maximum over rows of the diagonal element minus/plus the row sum of off-diagonal magnitudes, so every eigenvalue lies between them, also for negative definite, empty-row and single-row matrices; the partial form restricts this to the leading rows. Normalising with bounds mineval and maxeval replaces H by (maxeval*I - H)/(maxeval - mineval). Off-diagonal accumulation, with or without diagonal, returns the magnitude sums it names.',
 ['inputs'],'every matrix content (signs, zero rows, missing diagonal entries), size, precision and format',
 'The normalize test uses one positive matrix; negative spectra and empty rows are never sampled.',
 fam('normalize'),[('gershgorin',C+'*/bml_normalize_*_typed.c')],['returned bounds','normalised matrix'])
p('C10','Diagonalisation returns a true eigen-decomposition',
 'For every symmetric or Hermitian matrix, the returned eigenvalues are in ascending order and, with the returned eigenvectors as columns, satisfy H*V = V*diag(e) with orthonormal V, up to the precision of the type (for tightly clustered eigenvalues of complex matrices orthonormality is as good as the LAPACK solver delivers), for every format and for degenerate, diagonal and zero spectra. The input matrix keeps its elements.',
 ['inputs','configurations'],'every symmetric/Hermitian content, size, multiplicity structure, precision, input format and eigenvector format/width',
 'The diagonalize test checks one random matrix per format; degenerate spectra, tiny sizes and matrices stored with narrow rows are never sampled.',
 [C+'bml_diagonalize.c',C+'dense/bml_diagonalize_dense.c',C+'ellpack/bml_diagonalize_ellpack_typed.c',C+'csr/bml_diagonalize_csr_typed.c',C+'ellblock/bml_diagonalize_ellblock_typed.c'],[('eigensolver glue',C+'*/bml_diagonalize_*_typed.c')],['eigenvalue array','eigenvector matrix'])
p('C11','Inversion returns the inverse or refuses',
 'For every well-conditioned matrix the inverse X satisfies A*X = I up to precision and conditioning, in every format and precision, and leaves A unchanged. A singular matrix is reported as an error instead of producing an unmarked wrong result.',
 ['inputs'],'every well-conditioned or exactly singular content, size, precision and format',
 'The inverse test inverts one fixed 10x10 matrix.',
 fam('inverse'),[('inverse glue',C+'*/bml_inverse_*_typed.c')],['result matrix','process status'])
p('C12','Submatrix extraction and assignment move exactly the selected elements',
 'Extracting a block returns the elements at the requested offsets, and assigning a block overwrites exactly that block and nothing else, whatever the target held before. A core/halo submatrix built from an index list holds exactly the elements between the listed positions in list order, and writing it back stores its core rows at their original positions (values not above the threshold dropped). Index lists contain the requested core first, then every neighbour reachable through the given graphs exactly once.',
 ['inputs','histories'],'every offset and block size, previous target content, core list, halo option, graph and threshold',
 'The submatrix tests use one small banded matrix with consecutive cores and empty targets.',
 fam('submatrix'),[('submatrix kernels',C+'*/bml_submatrix_*_typed.c')],['submatrix elements','index lists'])
p('C13','Adjacency and group graphs describe the sparsity pattern',
 'The adjacency arrays list, for every row, exactly the columns of its non-zero off-diagonal elements, with row offsets that partition the list. The group form lists exactly the chosen nodes adjacent to each chosen node (for an asymmetric pattern a pair stored in one direction only may be listed or not), and the group graph matrix has an element for precisely those pairs of groups joined by an element above the threshold (in either direction where both elements are stored; one stored in one direction only counts for that direction and may count for the other). This holds whatever the order in which the elements were stored and whether or not diagonal elements are present.',
 ['inputs','histories'],'every sparsity pattern and storage order, group partition, base index flag and threshold',
 'The adjacency tests use one banded and one full matrix with diagonal, stored in ascending order.',
 [C+'ellpack/bml_adjacency_ellpack.c',C+'ellpack/bml_submatrix_ellpack_typed.c',C+'bml_submatrix.c',C+'bml_submatrix.h'],[('adjacency builder',C+'ellpack/bml_adjacency_ellpack.c'),('group matrix',C+'ellpack/bml_submatrix_ellpack_typed.c')],['xadj/adjncy arrays','group matrix elements'])
p('C14','Constructed matrices have the promised content and metadata',
 'A zero, identity, banded or random matrix of any size, precision and format has exactly the promised content (zeros, unit diagonal, entries within the band, finite random entries) and reports the size, row capacity (at least the requested one where rows grow on demand), type, precision and distribution mode it was created with; a matrix created with block sizes of its own keeps exactly that partition, and every operation on it behaves as on any other matrix. Clearing a matrix with any history makes it all zero and fully usable again. Reported row bandwidth, overall bandwidth and sparsity equal those of its content.',
 ['inputs','histories','configurations'],'every N, M, band, format, precision and history before clear or introspection',
 'The allocation and introspection tests check one size and never reuse a cleared matrix.',
 fam('allocate')+fam('introspection'),[('constructors',C+'*/bml_allocate_*_typed.c'),('introspection',C+'*/bml_introspection_*_typed.c')],['matrix elements','introspection results'])
p('C15','Stored rows stay well formed under every history',
 'After any sequence of operations, each stored row of a sparse matrix holds at most its capacity of entries, with in-range column (or block) indices that are pairwise distinct, and block storage has one live block of the right size per stored index. Unused capacity is never read as data. Reads by element, by row and by full export agree with each other.',
 ['histories'],'every sequence of public operations from construction to release, on every sparse format and precision',
 'Each test performs one or two operations on a fresh matrix and compares values; none walks the stored structure after a long mixed history.',
 [C+'ellpack/bml_types_ellpack.h',C+'csr/bml_types_csr.h',C+'ellblock/bml_types_ellblock.h']+fam('setters',kinds=('ellpack','csr','ellblock'))+fam('add',kinds=('ellpack','csr','ellblock')),
 [('row storage',C+'ellpack/bml_types_ellpack.h'),('row storage',C+'csr/bml_types_csr.h'),('block storage',C+'ellblock/bml_types_ellblock.h')],
 ['matrix structure walked after each operation'],None,
 [('row counts','number of entries stored per row',C+'ellpack/bml_types_ellpack.h'),('column indices','distinct and in range',C+'ellpack/bml_types_ellpack.h')])
p('C16','Valid call sequences are free of memory errors, undefined behaviour and leaks',
 'No sequence of valid calls on any format and precision reads or writes outside the memory the library owns, uses freed memory, frees twice, or executes undefined arithmetic. When every matrix, domain and returned array has been released, no memory allocated by the library remains. Every call returns.',
 ['histories','inputs'],'every valid call sequence over all formats, precisions, sizes including 1, and operand patterns',
 'The test suite is not run under sanitizers, never counts allocations, and samples short fixed sequences.',
 [C+'bml_allocate.c',C+'bml_utilities.c']+fam('allocate'),[('memory helpers',C+'bml_allocate.c'),('deallocation',C+'*/bml_allocate_*.c')],['AddressSanitizer/UBSan reports','allocation ledger at exit'])
p('C17','Row capacity overflow is refused, never silent corruption',
 'When an operation would need more entries in a row than the matrix has capacity for, it either stops with a reported error or still delivers the right result; it never writes beyond the row, hangs, or returns with elements missing or altered. This holds for every operation that can grow a row.',
 ['inputs','histories'],'every growing operation (import, set, add, identity shift, transpose, multiply, convert, extract, assign, read, reorder) with results exactly at, one above and far above capacity',
 'Every test allocates M = N, so capacity is never reached.',
 [C+'ellpack/bml_multiply_ellpack_typed.c',C+'ellpack/bml_add_ellpack_typed.c',C+'ellpack/bml_setters_ellpack_typed.c',C+'ellpack/bml_import_ellpack_typed.c',C+'ellpack/bml_transpose_ellpack_typed.c',C+'ellblock/bml_multiply_ellblock_typed.c',C+'ellblock/bml_import_ellblock_typed.c'],
 [('capacity checks',C+'ellpack/bml_*_ellpack_typed.c')],['process status','resulting elements','AddressSanitizer reports'])
p('C18','Read-only operands keep their value',
 'An operation never changes the stored elements of a matrix it only reads: sources of copies, conversions, exports, products, additions, norms, traces, extractions, decompositions and file writes hold exactly the same elements before and after. Two results never alias: changing one result leaves every other live matrix unchanged.',
 ['histories','inputs'],'every operation, every operand, in mixed histories with several live matrices',
 'Tests compare only the result of an operation; no test re-reads the inputs afterwards.',
 fam('multiply')+fam('add')+fam('norm')+fam('submatrix'),[('operation kernels',C+'*/')],['bit-exact snapshots of every live matrix around each call'])
p('C19','A matrix written to a file reads back equal',
 'Writing any matrix to a file and reading the file into a matrix of the same size and type, fresh or already filled, in any format, gives the written elements up to the printed decimal precision and zero elsewhere. The file is a well formed Matrix Market coordinate file whose header counts match its entries.',
 ['inputs','histories','configurations'],'every content (negative, complex, very large and small magnitudes), sparsity pattern, writing and reading format, previous content of the target',
 'The I/O test reads back one random matrix per format into a fresh matrix and compares with a loose tolerance.',
 fam('utilities'),[('writer and reader',C+'*/bml_utilities_*_typed.c')],['file bytes','matrix elements after read'])
p('C20','Hostile matrix files are refused cleanly',
 'Reading a missing, empty, truncated, oversized or corrupted matrix file, with any bytes in it, either yields a matrix whose stored rows are well formed or stops with a reported error. A file which does not exist, ends before the elements it announces, is that of a matrix of another size or holds an index outside the matrix is refused, never read as a part of a matrix. Reading never writes outside the matrix, crashes, loops forever or leaves an index outside the matrix.',
 ['inputs','fault_sequences'],'every byte string as file content, in particular mutations of valid files: out-of-range and negative indices, duplicate entries, wrong counts, overlong tokens, missing lines',
 'The only test input is a file the library has just written itself.',
 fam('utilities'),[('reader',C+'*/bml_utilities_*_typed.c')],['process status','AddressSanitizer/UBSan reports','structure after read'])
p('C21','OpenMP parallel operations are free of data races',
 'During every multi-threaded operation, any two accesses by different threads to the same memory, at least one of them a write, are ordered by the synchronisation the operation uses, for every thread count and scheduling of the threads.',
 ['schedules','inputs'],'every operation with OpenMP regions, on every format and precision, with thread counts from 1 to more than the rows',
 'The tests run with two threads and only look at results, which a race rarely changes.',
 [C+'ellpack/bml_transpose_ellpack_typed.c',C+'ellpack/bml_adjungate_triangle_ellpack_typed.c',C+'dense/bml_norm_dense_typed.c',C+'ellpack/bml_multiply_ellpack_typed.c',C+'csr/bml_multiply_csr_typed.c'],
 [('parallel regions',C+'*/*_typed.c')],['ThreadSanitizer happens-before reports'])
p('C22','Results do not depend on thread count, order or timing',
 'Running the same sequence of operations on the same data with any number of threads, and with the threads of each parallel region executed in any order, gives the same matrices up to rounding and the same well-formed structure.',
 ['schedules','configurations'],'every thread count from 1 to beyond the number of rows and every execution order of the team members of a region',
 'The tests use one fixed thread count and the scheduler the machine happens to provide.',
 [C+'ellpack/bml_multiply_ellpack_typed.c',C+'ellpack/bml_transpose_ellpack_typed.c',C+'csr/bml_multiply_csr_typed.c',C+'dense/bml_copy_dense_typed.c'],
 [('parallel regions',C+'*/*_typed.c')],['matrix elements and scalars per schedule'])
p('C23','Distributed matrices agree with the sequential definition',
 'Every operation supported on matrices distributed over a square process grid gives, gathered on the root, the result of the same operation on the undistributed matrix, for every local format, precision, process count that is a perfect square and size divisible by the grid. Scalar results are identical on all processes.',
 ['inputs','configurations','schedules'],'every supported operation, content (asymmetric, empty blocks), local format, precision, and grid of 1, 4, 9 or 16 processes',
 'The MPI tests use random full matrices, compare a few operations on one size, and never check asymmetric placement across grid blocks per operation.',
 [C+'distributed2d/'+f for f in ['bml_add_distributed2d.c','bml_multiply_distributed2d_typed.c','bml_transpose_distributed2d.c','bml_normalize_distributed2d_typed.c','bml_import_distributed2d_typed.c','bml_export_distributed2d_typed.c','bml_trace_distributed2d.c','bml_norm_distributed2d.c']],
 [('distributed kernels',C+'distributed2d/')],['gathered matrix on the root','scalars on every rank'])
p('C24','Messages carry matrices unchanged and leave nothing behind',
 'A matrix sent point-to-point or broadcast arrives with identical elements, size and type, whatever a receiver of the same shape held before, for every format and precision and every timing of the ranks. Each exchange completes even when sends are not buffered, and consumes exactly the messages it sent: none is left over and none is missing.',
 ['schedules','inputs','histories'],'every content and format, sequences of exchanges between all ranks, random delays and synchronous sends',
 'The MPI tests send one full matrix once with the buffering the MPI library happens to provide.',
 fam('parallel')+[C+'bml_init.c',C+'distributed2d/bml_multiply_distributed2d_typed.c'],[('send/receive/broadcast',C+'*/bml_parallel_*_typed.c')],['PMPI message ledger','matrix elements on the receiver'])
p('C25','Domain decomposition partitions the rows and reductions are global',
 'The row ranges assigned to ranks are contiguous, disjoint and together cover all rows, for every matrix size and rank count, and a changed decomposition is used consistently by the row-decomposed operations that follow. Reductions return the true sum, minimum or maximum over all ranks to every rank, and gathering distributed rows gives every rank the complete matrix.',
 ['inputs','configurations','schedules'],'every N (also smaller than or not divisible by the rank count), rank count, and reduced values',
 'The tests use one size that divides evenly and check no reduction result on all ranks.',
 [C+'bml_parallel.c',C+'bml_allocate.c',C+'ellpack/bml_parallel_ellpack_typed.c',C+'dense/bml_parallel_dense_typed.c'],[('default domain',C+'bml_allocate.c'),('reductions',C+'bml_parallel.c')],['domain arrays','reduced values on every rank','gathered matrix'])
p('C26','The Fortran interface does exactly what the C interface does',
 'Every Fortran entry point produces the same matrices, arrays and scalars as the corresponding C call on the same data, taking array shapes, element order, index base, logical and precision conversions into account, for every precision and format; printing and messages from Fortran show the elements of the inclusive one-based ranges asked for and the text given.',
 ['inputs','configurations','histories'],'every wrapped operation, array content (asymmetric, rectangular slices) and precision',
 'The Fortran tests compare a handful of calls on one symmetric or random matrix.',
 ['src/Fortran-interface/bml_c_interface_m.F90','src/Fortran-interface/bml_interface_m.F90','src/Fortran-interface/bml_multiply_m.F90','src/Fortran-interface/bml_setters_m.F90'],
 [('ISO C binding wrappers','src/Fortran-interface/')],['matrix elements and returned arrays'])
p('C27','The built-in matrix multiply kernel honours its BLAS contract',
 'The built-in general matrix multiply computes C = alpha*op(A)*op(B) + beta*C for every transpose flag, factor, leading dimension and precision, reads nothing outside its operands, writes nothing outside the m by n result, and reports an invalid flag or size. Multiplication of matrices in a build that uses it satisfies the same contract as with the system BLAS.',
 ['inputs','configurations'],'every m, n, k, lda, ldb, ldc, transpose flags, alpha and beta, precision',
 'The kernel is compiled out of the tested configuration, so no test reaches it.',
 ['src/internal-blas/bml_gemm.c'],[('gemm kernel','src/internal-blas/bml_gemm.c')],['output array including padding'])
p('C28','Out-of-range and inconsistent arguments are reported',
 'A call is stopped with an error message and a failing exit status, without touching memory outside the matrix and without returning as if it had succeeded, when it reads or writes an element or a row with an index outside the matrix, passes a null matrix to an operation (exporting a null matrix is the one exception, it returns null), asks for an unknown matrix type, precision or dense element order, copies between existing matrices of different type, precision or size, takes the trace of a product of matrices of different size, or names a file that can not be opened.',
 ['inputs'],'every such entry point, format and precision, and every invalid index or enum value, missing matrix or mismatched operand',
 'No test passes an invalid argument, since the process would exit.',
 [C+'bml_setters.c',C+'bml_getters.c',C+'bml_allocate.c',C+'bml_logger.c',C+'bml_convert.c',C+'bml_copy.c',C+'bml_utilities.c',C+'bml_introspection.c'],[('argument checks',C+'*/'),('error logger',C+'bml_logger.c')],['exit status and message of a child process'])
p('C29','Running out of memory is reported, never ignored',
 'If any single memory request of the library fails, the call in progress stops with an error message and a failing exit status. It never dereferences the missing memory, never continues with a partial matrix, and never reports success.',
 ['fault_sequences','histories'],'every allocation made by every operation failing in turn',
 'No test makes an allocation fail.',
 [C+'bml_allocate.c']+fam('allocate'),[('allocation helpers',C+'bml_allocate.c')],['exit status and message of a child process per injected failure'])
p('C30','Memory helpers give zeroed, aligned, size-preserving blocks',
 'The allocation helper returns memory that is zero filled, the non-initialising variant returns memory of the requested size, both are aligned to the configured boundary, and reallocation keeps the old content up to the smaller size. Live blocks never overlap, no call changes a byte of another live block, every block can be released through the library, and a request that cannot be met is reported.',
 ['inputs'],'every non-zero size including word, cache line and page boundaries, and every sequence of calls',
 'The tests only reach the helpers through matrices.',
 [C+'bml_allocate.c'],[('allocation helpers',C+'bml_allocate.c')],['block content and address'])
p('C31','Printed matrices, vectors and messages show the true content',
 'Printing rows i_l..i_u-1 and columns j_l..j_u-1 of a matrix of any format and precision, of a dense array in either order, or of a vector shows exactly those elements, one line per row, in order, real and imaginary part to the printed decimals, nothing else, and changes nothing. A log message at or above the level of the build appears completely, with its arguments and, where asked, its location; one below that level prints nothing; an error message also ends the program with a failing status.',
 ['inputs','histories'],'every row and column range including empty ones, array order, format, precision and message',
 'The tests print matrices but never look at the output.',
 [C+'bml_utilities.c',C+'dense/bml_utilities_dense_typed.c',C+'bml_logger.c'],[('print functions',C+'bml_utilities.c'),('logger',C+'bml_logger.c')],['standard output','exit status'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    for fn in x['anchors']['files']:
        if not os.path.exists('/repo/'+fn): print(x['id'],'missing',fn)
    assert len(x['title'])<=80,x['id']
print(len(P))
