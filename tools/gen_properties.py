#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept in a readable form).  Run: python3 tools/gen_properties.py > properties.jsonl
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
F='fflas-ffpack/'
p('C01','Dense matrix product is exact for every algorithm, shape and scalar',
 "Over every supported coefficient domain the dense product routines (general product, and squaring) leave in C exactly alpha*op(A)*op(B)+beta*C, in reduced form, for every shape including empty ones, every transposition, every scalar pair and every leading dimension. The result is the same whatever algorithm or recursion depth is selected (classical, Strassen-Winograd with any number of levels, automatic choice). A and B are unchanged.",
 ['inputs','configurations'],'all fields, m,n,k (odd/even/zero), transposes, alpha (nonzero), beta, leading dimensions, recursion levels, helper modes and operand values',
 'test-fgemm draws a few random shapes and dense random values per run; odd/even peeling at every level, rare scalar special cases and untested helper modes are hit only by luck.',
 [F+'fflas/fflas_fgemm.inl',F+'fflas/fflas_fgemm/fgemm_winograd.inl',F+'fflas/fflas_fgemm/fgemm_classical.inl',F+'fflas/fflas_fgemm/schedule_winograd.inl',F+'fflas/fflas_fgemm/schedule_winograd_acc.inl'],
 [('fgemm dispatch by helper mode',F+'fflas/fflas_fgemm.inl'),('DynamicPeeling / WinogradThreshold',F+'fflas/fflas_fgemm/fgemm_winograd.inl'),('Winograd schedules',F+'fflas/fflas_fgemm/schedule_winograd*.inl'),('alpha/beta special cases',F+'fflas/fflas_fgemm/fgemm_classical.inl')])
p('C02','Delayed reduction never overflows or rounds, up to the largest modulus',
 "For every field, every modulus the field type accepts and every inner dimension, results of products, matrix-vector products, dot products, triangular and symmetric operations are exact even when all operands have the extreme representable values. The number of products accumulated before a reduction never exceeds what the underlying machine type represents exactly.",
 ['inputs','configurations'],'all moduli (up to the maximal one), inner dimensions around every multiple of the accumulation bound, all sign patterns of extremal values, all entry points that delay reductions',
 'test-maxdelayeddim compares formulas and the other tests use random (average) values and two or three moduli, so an off-by-one in a bound or a missing reduction step never overflows in them.',
 [F+'fflas/fflas_helpers.inl',F+'fflas/fflas_bounds.inl',F+'fflas/fflas_fgemm/fgemm_classical.inl',F+'fflas/fflas_fgemm/fgemm_winograd.inl',F+'field/field-traits.h',F+'fflas/fflas_ftrsm_src.inl'],
 [('MaxDelayedDim / Outmin / Outmax bound tracking',F+'fflas/fflas_helpers.inl'),('NeedPreAddReduction / NeedPreSubReduction / NeedPreAxpyReduction',F+'fflas/fflas_fgemm/fgemm_winograd.inl'),('TRSMBound, DotProdBoundClassic',F+'fflas/fflas_bounds.inl')])
p('C03','Vector and elementwise matrix operations match their definition',
 "Copy, zero, negate, scale, add, subtract, axpy, dot product, swap, identity, comparison, reduction, initialisation from and conversion to other types compute exactly the documented elementwise result on vectors and matrices. This holds for every length, increment, leading dimension and alignment of the operands, over every supported field, and entries outside the addressed window are not modified.",
 ['inputs','configurations'],'all lengths across SIMD block boundaries, increments, alignments, leading dimensions, scalars, values and fields',
 'the tests check a few lengths with aligned buffers and random values; head/tail and unaligned code paths, strided variants and special scalars are only partly sampled.',
 [F+'fflas/fflas_fadd.inl',F+'fflas/fflas_fscal.inl',F+'fflas/fflas_freduce.inl',F+'fflas/fflas_faxpy.inl',F+'fflas/fflas_fdot.inl',F+'fflas/fflas_fassign.inl',F+'fflas/fflas_level1.inl',F+'fflas/fflas_level2.inl',F+'fflas/fflas_simd/simd_modular.inl'],
 [('vectorised add/sub/scal/reduce with head, body and tail',F+'fflas/fflas_fadd.inl, fflas_fscal.inl, fflas_freduce.inl'),('strided fallbacks',F+'fflas/fflas_level1.inl, fflas_level2.inl')])
p('C04','Matrix-vector product and rank-one update are exact',
 "The matrix-vector product yields exactly alpha*op(A)*x+beta*y and the rank-one update yields exactly A+alpha*x*y^T, for every shape, transposition, scalar, vector increment and leading dimension, over every supported field including multiprecision ones. Only the output operand is modified.",
 ['inputs','configurations'],'all fields, shapes, transposes, alpha, beta, increments, leading dimensions and values',
 'tests use random dense values with unit or a single increment and few scalars.',
 [F+'fflas/fflas_fgemv.inl',F+'fflas/fflas_fger.inl',F+'fflas/fflas_fgemv_mp.inl',F+'fflas/fflas_fger_mp.inl'],
 [('fgemv helper modes',F+'fflas/fflas_fgemv.inl'),('fger helper modes',F+'fflas/fflas_fger.inl')])
p('C05','Triangular solve and triangular multiply are exact',
 "Triangular system solving with a matrix or vector right-hand side returns the unique X with op(T)*X = alpha*B (or X*op(T) = alpha*B), and triangular multiplication returns exactly alpha*op(T)*B (or alpha*B*op(T)). This holds for every side, triangle, transposition and diagonal kind, size, scalar, leading dimension and supported field; the opposite triangle (and the diagonal, when unit) of T is never used, and T is unchanged.",
 ['inputs','configurations'],'all side/uplo/trans/diag combinations, sizes across every blocking boundary, scalars, strides, values in the ignored triangle, fields',
 'tests draw one random triangular matrix per case at a fixed size, so block-boundary sizes and extremal delayed values are not covered.',
 [F+'fflas/fflas_ftrsm.inl',F+'fflas/fflas_ftrsm_src.inl',F+'fflas/fflas_ftrsm_mp.inl',F+'fflas/fflas_ftrmm.inl',F+'fflas/fflas_ftrmm_src.inl',F+'fflas/fflas_ftrsv.inl'],
 [('ftrsm delayed block recursion',F+'fflas/fflas_ftrsm_src.inl'),('ftrmm recursion',F+'fflas/fflas_ftrmm_src.inl'),('ftrsv / ftrmv',F+'fflas/fflas_ftrsv.inl, fflas_level2.inl')])
p('C06','Triangular inverse and triangular-by-triangular products are exact',
 "In-place inversion of a triangular matrix yields its exact inverse, and products or quotients of two triangular factors stored together (upper by lower, lower by upper, triangular by triangular system, symmetric rank-2 triangular system) yield exactly the documented matrix. This holds for every size, triangle, diagonal kind, leading dimension and recursion threshold.",
 ['inputs','configurations'],'all sizes, uplo, diag, side, thresholds, values',
 'tests use one random matrix per flag combination at one size.',
 [F+'ffpack/ffpack_ftrtr.inl',F+'ffpack/ffpack_ftrstr.inl',F+'ffpack/ffpack_ftrssyr2k.inl'],
 [('ftrtri / trinv_left / ftrtrm',F+'ffpack/ffpack_ftrtr.inl'),('ftrstr',F+'ffpack/ffpack_ftrstr.inl'),('ftrssyr2k',F+'ffpack/ffpack_ftrssyr2k.inl')])
p('C07','Symmetric products and symmetric factorisation are exact',
 "Symmetric rank-k, diagonally scaled rank-k and rank-2k updates produce in the requested triangle exactly the documented sum, for every shape, triangle, transposition, scalar and algorithm choice. The symmetric triangular factorisation succeeds exactly when the input has generic rank profile and then its factors reproduce the input; the rank-profile-revealing variant reports the rank and factors that reproduce any symmetric input in odd characteristic.",
 ['inputs','configurations'],'all shapes, uplo, trans, alpha, beta, diagonal scalings, symmetric matrices of every rank profile, thresholds, fields',
 'tests use random matrices (almost always generic rank profile) at one or two sizes.',
 [F+'fflas/fflas_fsyrk.inl',F+'fflas/fflas_fsyrk_strassen.inl',F+'fflas/fflas_fsyr2k.inl',F+'ffpack/ffpack_fsytrf.inl'],
 [('fsyrk recursion and Strassen variant',F+'fflas/fflas_fsyrk.inl, fflas_fsyrk_strassen.inl'),('fsytrf UL/LU base cases, RPM variant',F+'ffpack/ffpack_fsytrf.inl')])
p('C08','Gaussian elimination factors every matrix exactly',
 "For every m x n matrix of any rank the pivoted factorisations return the exact rank, valid permutations and triangular factors whose permuted product is the input, with the requested diagonal unit. This holds for every shape, rank profile, diagonal choice, transposition, variant, threshold and leading dimension.",
 ['inputs','configurations'],'all shapes, all rank-profile matrices, diagonal choices, LU variants, thresholds, fields',
 'random test matrices have a uniformly random rank profile at large size: structured deficiencies at block boundaries, zero blocks and small or degenerate shapes are not enumerated.',
 [F+'ffpack/ffpack_pluq.inl',F+'ffpack/ffpack_ludivine.inl',F+'ffpack/ffpack_pluq_mp.inl',F+'ffpack/ffpack_ludivine_mp.inl'],
 [('PLUQ tile recursion and base cases',F+'ffpack/ffpack_pluq.inl'),('LUdivine recursion',F+'ffpack/ffpack_ludivine.inl')])
p('C09','Echelon forms and their transformations are correct and canonical',
 "Row and column echelon forms, and their reduced variants, return the exact rank, a matrix in the claimed form, and, when requested, an invertible transformation that maps the input to that form. The reduced form is the unique reduced echelon form of the input, for every input matrix, elimination variant and leading dimension.",
 ['inputs','configurations'],'all matrices up to the bound, all rank profiles, both variants, with and without transformation',
 'tests check random matrices of one random rank.',
 [F+'ffpack/ffpack_echelonforms.inl',F+'ffpack/ffpack.inl'],
 [('ColumnEchelonForm, RowEchelonForm, Reduced*',F+'ffpack/ffpack_echelonforms.inl'),('getEchelonForm / getReducedEchelonForm / get*Transform',F+'ffpack/ffpack_echelonforms.inl')])
p('C10','Rank profiles and rank-profile matrices are the true ones',
 "Reported row and column rank profiles are the lexicographically smallest sets of independent rows and columns of the input, and those derived from a factorisation for leading submatrices are those of each leading submatrix. The rank profile matrix encoded by the rank-revealing factorisation is that of the input, and extracted full-rank submatrices have the rank of the input.",
 ['inputs','configurations'],'all matrices up to the bound, every rank-profile matrix, all leading sub-dimensions, both elimination variants',
 'tests compare against prescribed random profiles for a handful of matrices.',
 [F+'ffpack/ffpack_rankprofiles.inl',F+'ffpack/ffpack_pluq.inl'],
 [('RowRankProfile / ColumnRankProfile / RankProfileFromLU / LeadingSubmatrixRankProfiles / *SubmatrixIndices',F+'ffpack/ffpack_rankprofiles.inl')])
p('C11','Rank, determinant, singularity test and inverse are exact',
 "Rank, determinant, singularity test and inverse return the exact values over every supported field for every matrix of every shape and rank, including empty ones, and the determinant over the integers is the exact integer. The inverse routines report the rank deficiency exactly when the input is singular.",
 ['inputs','configurations'],'all matrices up to the bound over several fields; every rank profile; integer matrices with negative entries',
 'random square matrices are almost always invertible or of one prescribed rank.',
 [F+'ffpack/ffpack.inl',F+'ffpack/ffpack_invert.inl',F+'ffpack/ffpack_det_mp.inl'],
 [('Rank, Det, IsSingular',F+'ffpack/ffpack.inl'),('Invert, Invert2',F+'ffpack/ffpack_invert.inl'),('integer determinant by CRT',F+'ffpack/ffpack_det_mp.inl')])
p('C12','Linear system solving and nullspaces are exact',
 "The system solvers return a solution whenever one exists and report inconsistency exactly when none exists, on either side, for square, rectangular, singular, consistent and inconsistent systems with any number of right-hand sides; the single-vector solver returns the solution of every nonsingular system. Nullspace routines return a full-rank basis whose dimension is exactly the nullity and every vector of which is annihilated by the matrix.",
 ['inputs','configurations'],'all matrices and right-hand sides up to the bound, both sides, all rank profiles, leading dimensions',
 'tests use random full-rank or random prescribed-rank systems which are almost always either generically consistent or inconsistent.',
 [F+'ffpack/ffpack_fgesv.inl',F+'ffpack/ffpack_fgetrs.inl',F+'ffpack/ffpack.inl'],
 [('fgesv, fgetrs',F+'ffpack/ffpack_fgesv.inl, ffpack_fgetrs.inl'),('Solve, NullSpaceBasis, RandomNullSpaceVector',F+'ffpack/ffpack.inl')])
p('C13','Permutation routines act as the permutation they encode',
 "Applying an encoded permutation to rows or columns, directly or transposed, permutes exactly the addressed rows or columns as the encoding says; conversions between transposition-list and one-line encodings, composition, inversion and compression preserve the permutation. This holds for every permutation, range, side, matrix shape and leading dimension.",
 ['inputs'],'all permutations up to the bound in both encodings, all sub-ranges, sides, transposes, shapes',
 'tests apply a few random permutations and compare two library routines with each other.',
 [F+'ffpack/ffpack_permutation.inl'],
 [('applyP, MonotonicApplyP, applyS/applyT, LAPACKPerm2MathPerm, MathPerm2LAPACKPerm, composePermutations*, cyclic_shift*',F+'ffpack/ffpack_permutation.inl')])
p('C14','Characteristic and minimal polynomials are exact',
 "The characteristic polynomial is monic of degree n and equal to det(X*I-A), whichever general-purpose algorithm is selected (automatic, Danilevski, LU-Krylov, arithmetic progression with Krylov preconditioning) and whatever the random choices; a special-purpose algorithm that applies to generic matrices only returns that polynomial or reports failure. The minimal polynomial of a matrix and a vector is the monic polynomial of the first linear dependency of the Krylov iterates, and the minimal polynomial of a matrix is that of the iterates of a nonzero vector, hence the true one unless the random choice is unlucky. This holds for every matrix, including nilpotent, derogatory, block and singular ones, over every supported field and over the integers.",
 ['inputs','configurations'],'all matrices up to the bound over small fields, all algorithm tags, all similarity types, integer matrices',
 'random matrices are cyclic with overwhelming probability, so degenerate Krylov behaviour is not reached.',
 [F+'ffpack/ffpack_charpoly.inl',F+'ffpack/ffpack_charpoly_kglu.inl',F+'ffpack/ffpack_charpoly_kgfast.inl',F+'ffpack/ffpack_charpoly_danilevski.inl',F+'ffpack/ffpack_frobenius.inl',F+'ffpack/ffpack_minpoly.inl',F+'ffpack/ffpack_krylovelim.inl'],
 [('CharPoly dispatch and algorithms',F+'ffpack/ffpack_charpoly*.inl, ffpack_frobenius.inl'),('MinPoly, MatVecMinPoly',F+'ffpack/ffpack_minpoly.inl')])
p('C15','Sparse matrix products agree with the dense definition in every format',
 "Converting a list of nonzero entries into a sparse storage format (CSR, COO, ELL, the hybrid formats and their zero-one variants) and multiplying a vector or a block of vectors by it, sequentially or in parallel, yields exactly the product by the corresponding dense matrix accumulated into the scaled output, in reduced form. This holds for every sparsity pattern including empty rows, columns and matrices (constant row length for the zero-one ELL formats), for every value of the constant of a zero-one matrix, block width and leading dimension, and for rows longer than the delayed-reduction bound.",
 ['inputs','configurations'],'all sparsity patterns up to the bound, all formats, value classes, fields, vector block widths, scalars',
 'the sparse test program is not part of the built test-suite; nothing exercises these formats on every commit.',
 [F+'fflas/fflas_sparse.h',F+'fflas/fflas_sparse.inl',F+'fflas/fflas_sparse/*'],
 [('sparse_init per format',F+'fflas/fflas_sparse/*/*_utils.inl'),('fspmv / fspmm per format',F+'fflas/fflas_sparse/*/*_spmv.inl, *_spmm.inl')])
p('C16','SIMD wrappers compute the same as scalar arithmetic',
 "Every vector-register operation exposed by the library (load/store, arithmetic, comparison, blend, shuffle, shift, multiply-high, fused multiply-add and modular helpers) gives in every lane the value defined by the corresponding scalar operation, for every lane value including the extreme ones.",
 ['inputs'],'all lane values for 16-bit pairs on a boundary set, extremal values for 32/64-bit and floating point, all shift and shuffle immediates, 128 and 256-bit registers',
 'the SIMD test compares on random lane values.',
 [F+'fflas/fflas_simd/simd128_*.inl',F+'fflas/fflas_simd/simd256_*.inl',F+'fflas/fflas_simd/simd_modular.inl'],
 [('Simd128_impl / Simd256_impl',F+'fflas/fflas_simd/')])
p('C17','Residue number system conversion and multiprecision products are lossless',
 "Converting multiprecision integers to residues and back is the identity on the whole advertised range, for every matrix shape, leading dimension, transposition and sign convention. Multiprecision products, triangular solves and eliminations over the integers and over large-modulus fields, which work through residues, are therefore exact for every operand size.",
 ['inputs','configurations'],'bit sizes around every limb and chunk boundary, extremal values, shapes, strides, signs, moduli',
 'tests use random operands of one bit size, average in magnitude.',
 [F+'field/rns-double.inl',F+'field/rns-double.h',F+'field/rns-integer-mod.h',F+'fflas/fflas_fgemm/fgemm_classical_mp.inl',F+'fflas/fflas_ftrsm_mp.inl'],
 [('rns_double init / convert',F+'field/rns-double.inl'),('rns_double_extended',F+'field/rns-double.inl'),('multiprecision fgemm bound and basis choice',F+'fflas/fflas_fgemm/fgemm_classical_mp.inl')])
p('C18','Parallel routines give the sequential result under every schedule',
 "Every parallel routine (matrix product in all cutting strategies, triangular solve, matrix-vector product, symmetric update, elimination, sparse matrix - multivector product, elementwise helpers) produces the same exact result as its sequential counterpart for every number of threads and every task interleaving. No two concurrently executable tasks make conflicting accesses to the same memory.",
 ['schedules','inputs','configurations'],'all task schedules up to a deviation bound, thread counts, cutting strategies, shapes smaller and larger than the thread count',
 'tests observe one uncontrolled schedule per run, mostly with matrices far larger than the thread count.',
 [F+'fflas/fflas_pfgemm.inl',F+'paladin/pfgemm_variants.inl',F+'fflas/fflas_pftrsm.inl',F+'paladin/pfgemv.inl',F+'ffpack/ffpack_ppluq.inl',F+'paladin/parallel.h',F+'paladin/fflas_plevel1.h',F+'fflas/fflas_fsyrk.inl',F+'fflas/fflas_sparse/csr/csr_pspmm.inl',F+'fflas/fflas_sparse/hyb_zo/hyb_zo_pspmm.inl'],
 [('task spawning and synchronisation',F+'paladin/parallel.h'),('pfgemm variants',F+'paladin/pfgemm_variants.inl'),('pPLUQ',F+'ffpack/ffpack_ppluq.inl')])
p('C19','Parallel cutting strategies partition the iteration space exactly',
 "For every iteration range, thread count, cutting method and strategy parameter, the one- and two-dimensional block iterators terminate and produce blocks that are pairwise disjoint, in bounds and together cover every index exactly once.",
 ['inputs','configurations'],'all dimensions up to the bound, all thread counts and grain sizes, all cutting methods and strategies',
 'only exercised indirectly through a few large matrix products.',
 [F+'paladin/blockcuts.inl'],
 [('BlockCuts, ForStrategy1D, ForStrategy2D',F+'paladin/blockcuts.inl')])
p('C20','Matrix input/output round-trips',
 "Writing a matrix and reading it back in any supported text or binary format returns the same dimensions and entries, for every shape, field and leading dimension (binary: fields with machine-word elements), with automatic detection telling binary from sparse text files. Printed permutations and matrices contain exactly the entries of their operand, and the sparse file readers return exactly the nonzero entries the file lists.",
 ['inputs','configurations'],'all shapes up to the bound including empty, all formats, fields and value classes (negative, large, zero)',
 'the test writes one random matrix per format.',
 [F+'utils/fflas_io.h',F+'fflas/fflas_sparse/read_sparse.h'],
 [('WriteMatrix / ReadMatrix / preamble detection',F+'utils/fflas_io.h'),('readSmsFormat / readSprFormat',F+'fflas/fflas_sparse/read_sparse.h')])
p('C21','Routines touch only the memory of their operands',
 "No routine reads or writes outside the rows and columns of the operands it was given, uses uninitialised or freed memory, leaks its workspace or modifies an operand documented as input. This holds for every shape (including empty), leading dimension, alignment and rank profile.",
 ['inputs','configurations'],'every public dense routine, all small shapes including zero dimensions, all flag combinations, exact-size buffers',
 'tests allocate generous buffers and never look at the padding or run under a memory checker.',
 [F+'fflas',F+'ffpack',F+'utils/fflas_memory.h'],
 [('workspace sizes and window arithmetic','all .inl files')])
p('C22','Result checkers never reject correct results and detect wrong ones',
 "The probabilistic verification routines (product, triangular system, elimination, inverse, determinant, characteristic polynomial, and the direct Freivalds check) accept every correct result for every random choice. A wrong result is rejected for every random challenge that is not annihilated by the error.",
 ['inputs','histories'],'all correct results up to the bound, all single-entry corruptions, all challenge vectors up to the bound',
 'tests run each checker on one random correct instance with one random challenge.',
 [F+'checkers',F+'fflas/fflas_freivalds.inl'],
 [('CheckerImplem_* init/check',F+'checkers/checker_*.inl'),('freivalds',F+'fflas/fflas_freivalds.inl')])
p('C23','The C interface and compiled instances agree with the library',
 "Each function of the C interface and of the precompiled instantiations computes the same result as the corresponding generic routine, for every argument combination, honouring argument order, flags, leading dimensions and both positive and balanced representations.",
 ['inputs','configurations'],'all exported functions, flag combinations, small shapes, moduli and both representations',
 'the interface test calls a handful of functions once.',
 [F+'interfaces/libs'],
 [('C wrappers',F+'interfaces/libs/fflas_lvl1.C, fflas_lvl2.C, fflas_lvl3.C, ffpack.C')])
p('C24','Quasiseparable generators represent the matrix exactly',
 "The Bruhat and SSS generators computed from a matrix expand back to exactly that matrix (or its left-triangular part), and products by a dense block computed from the generators equal the dense product. This holds for every size, quasiseparability order, rank profile and block width.",
 ['inputs','configurations'],'all sizes, orders and rank-profile patterns up to the bound, block widths, scalars',
 'tests generate one random matrix of given order per run.',
 [F+'ffpack/ffpack_bruhatgen.inl',F+'ffpack/ffpack_sss.inl'],
 [('LTBruhatGen, CompressToBlockBiDiagonal, productBruhatxTS',F+'ffpack/ffpack_bruhatgen.inl'),('DenseToSSS, productSSSxTS, SSSToDense',F+'ffpack/ffpack_sss.inl')])
p('C25','Random generators deliver matrices with the prescribed structure',
 "Random matrix, triangular, symmetric, rank-profile and determinant generators always return a matrix with exactly the requested shape, triangle, rank, rank profile or determinant, whatever the random stream.",
 ['inputs','histories'],'all shapes and ranks up to the bound, all prescribed profiles, a fixed enumeration of random streams',
 'the generators are only used, never checked, by the tests.',
 [F+'utils/fflas_randommatrix.h'],
 [('RandomMatrixWithRank*, RandomRankProfileMatrix, RandomSymmetric*, RandomMatrixWithDet',F+'utils/fflas_randommatrix.h')])
p('C26','Storage transposition is exact in and out of place',
 "Out-of-place and in-place transposition move entry (i,j) to (j,i) for every shape, leading dimension and element type, including vectorised and tail blocks.",
 ['inputs'],'all shapes up to and across the vector block sizes, leading dimensions, element types',
 'one random shape per run.',
 [F+'fflas/fflas_transpose.h'],
 [('ftranspose / ftransposein block kernels',F+'fflas/fflas_transpose.h')])
p('C27','Any sequence of operations behaves as on exact matrices',
 "Results depend only on the operands of each call, never on earlier calls, so any interleaved sequence of in-place library operations over shared matrices leaves exactly the matrices that the same sequence leaves in exact arithmetic, and every result is again a valid operand (reduced, invertible where promised).",
 ['histories'],'all reachable states of a small machine of matrices over tiny fields under the library operations, all operation sequences up to the depth bound',
 'tests call each routine on fresh operands in isolation.',
 [F+'fflas',F+'ffpack'],
 [('static or cached state and in-place outputs feeding later calls','all routines')])
for x in P: print(json.dumps(x))
