import os as _os; V=_os.path.dirname(_os.path.dirname(_os.path.abspath(__file__)))
D={}
D['C01']=("c01.C, 5 field families, ~25 s",
"state = (A,B,C,alpha,beta); transition = fgemm with automatic choice, with 0..4 forced Winograd levels, with a lazy helper (bounds announced by the helper are asserted too), fsquare (in place as well), and the integer kernel `igemm_` with every storage order.",
"all shapes m,n,k <= 7 (9 thorough) x all transpositions x alpha in {0,1,-1,2,5} x beta in {0,1,-1,2,5} x compact/padded/offset operands; a list of larger shapes up to 33 (65); all operand values over GF(2), GF(3) for 3x2x3 and 2x2x2; Modular/ModularBalanced over double, float, int32, int64, Integer, and ZRing<double,float,Integer>.",
"Lazy helpers whose inner dimension is smaller than 2^levels announce no meaningful bound and alpha=0 is excluded for them by an assertion of the code, so both are skipped there. The in-place Winograd schedules (`schedule_winograd_ip.inl`) call a routine that no longer exists and cannot be instantiated; fgemm over ZRing<int32/int64> does not compile.")
D['C02']=("c02.C, 5 families, ~90 s",
"the accumulation bound of each field is a function of modulus and inner dimension; the check computes, for each inner dimension K of a list, the moduli on both sides of the point where K products of extreme elements stop being representable, and runs fgemm, fgemv, fdot, fger, fsyrk, fsyr2k, ftrsm, ftrmm with operands that are entirely extremal (all p-1, all -(p-1)/2, alternating signs, pre-reduction representatives) at those moduli.",
"K in a list 1..10^7, moduli up to the maximum cardinality of each type; Winograd levels 0..4; lazily reduced results are compared with the announced min/max; the lazy kernels (fgemm, fgemv, fger, fsyrk) on explicitly unreduced operands with announced bounds; growing triangular solves (every element extremal so that the unreduced solution grows as fast as it can).",
"Assumes FMA hardware as the library does when configured here; degenerate lazy calls (see C01) are skipped.")
D['C03']=("c03.C, ~36 s","every level-1 / elementwise routine (fzero, fassign, fneg(in), fscal(in), fadd/fsub(in) with and without scalar, faxpy, fdot, fswap, fidentity, fequal, fiszero, freduce, finit, fconvert, frand guards) as vector and matrix calls, with independent leading dimensions or strides of every operand and, where an output may be an input (fadd, fsub, fneg, fscal, freduce), in place.",
"all lengths 0..4 SIMD widths+1, all increments of a list, all alignments of each operand (including mismatched), all leading dimension kinds, values at the extremes; negative and unreduced inputs for freduce/finit, conversion from and to every other supported element type.",
"faxpby is only declared.")
D['C04']=("c04.C, ~25 s","fgemv, fger; state = (A,x,y,alpha,beta).","all shapes <= 8x8 (12) x transposition x 5x5 scalars x increments 1..3 on both vectors x padded leading dimension; shapes up to 130 (400) crossing the dot-product delay bound; all values over GF(2) 3x3, GF(3) 2x3.","")
D['C05']=("c05.C, 6 families, ~40 s","ftrsm, ftrsv, ftrmm (and ftrmv through them).","all m,n <= 7 (10), all side/uplo/trans/diag, alpha in {0,1,-1,..}, padded leading dimensions; orders up to 67 crossing the delayed and recursive thresholds; the opposite triangle (and the diagonal when unit) is filled with different garbage in two runs and must not influence the result; all triangular matrices of order 3 over GF(3).","ftrsm over ZRing<Integer> does not compile.")
D['C06']=("c06.C, ~33 s","ftrtri, trinv_left, ftrtrm, ftrstr, ftrssyr2k for every threshold 1..64.","orders <= 14 (24) plus 31..65 (129); all triangular matrices over GF(2) order 4, GF(3) order 3.","False alarm removed: a first version required the opposite triangle of every operand to be preserved; ftrssyr2k/fsyr2k use it as scratch by design.")
D['C07']=("c07.C, 5 families, ~44 s","fsyrk (all algorithm choices), fsyrk with diagonal and with 2x2-block diagonal, fsyr2k, fsytrf (succeeds iff generic rank profile), fsytrf_RPM (also with arbitrary contents in the unreferenced triangle).","all shapes <= 8 (12); all symmetric matrices of order <= 4 over GF(2) and GF(3) (thorough: order 5, GF(5)); all symmetric rank profile matrices of order <= 8 over large primes; thresholds 1,2,3,64.","Plain fsyrk is instantiable for floating-point element types only. fsytrf_RPM with threshold 1 is outside its domain (recursion on an order-1 block). The opposite-triangle condition was dropped (scratch by design).")
D['C08']=("c08.C, 5 families, ~40 s","PLUQ with every base-case threshold, LUdivine (CUP/PLE) with every cutoff, both diagonals, both transpositions: rank, validity of P and Q, L and U reproduce the permuted input.","all matrices over GF(2) up to 16 (20) entries and GF(3)/GF(5) up to 60 000 (600 000) matrices per shape; all rank profile matrices up to 5x5 (6x6) over large primes; structured ones up to 290x258.","")
D['C09']=("c09.C, 7 programs, ~50 s","(Reduced)Row/ColumnEchelonForm with and without transformation, each FFPACK_LU_TAG, each accessor (getTriangular, getEchelonForm, getEchelonTransform, getReducedEchelonForm, getReducedEchelonTransform, getTridiagonal) in and out of place.","input spaces of C08; two programs with all thresholds lowered to 1-2.","")
D['C10']=("c10.C, 7 programs, ~43 s","RowRankProfile, ColumnRankProfile, *FromLU, LeadingSubmatrixRankProfiles for every leading submatrix, Row/ColRankProfileSubmatrix(Indices), RankProfile matrix from PLUQ. Oracle: rref of every leading submatrix.","input spaces of C08.","")
D['C11']=("c11.C, 7 programs, ~20 s","Rank, Det (field and integers), IsSingular, Invert, Invert2, including degenerate shapes; integer determinants with magnitudes around every early-termination and Hadamard-bound boundary.","input spaces of C08, plus integer matrices of order <= 4 with entries in [-2,2] and extreme entries.","Invert's comment says X is untouched when A is singular; it is overwritten, only the nullity is asserted.")
D['C12']=("c12.C, 6 programs, ~16 s","fgesv (both forms), fgetrs (both), Solve, solveLB/solveLB2, NullSpaceBasis, RandomNullSpaceVector, on all (A,b) with b ranging over consistent and inconsistent right-hand sides.","input spaces of C08; right-hand sides: every unit vector, columns of A, combinations, zero.","Solve's contract is the nonsingular system (first version demanded more: false alarm, property restricted).")
D['C13']=("c13.C, ~7 s","applyP on rows/columns, transposed or not, every sub-range; LAPACK<->math conversion, composition, inversion, MonotonicApplyP/Compress/Expand, cyclic shifts, block permutations (MatrixApplyS/T, PermApplyS/T).","all permutations of order <= 7 (8), all ranges, several widths.","MonotonicApplyP is called with ibeg=0, its only use; cyclic_shift_row_col cannot be instantiated.")
D['C14']=("c14.C, ~32 s","CharPoly with every tag, MinPoly, MatVecMinPoly, Hessenberg/Krylov helpers reached through them; integers too.","all matrices of order 3 over GF(2), 2 over GF(3), order 4 over GF(2) thorough; one representative of *every* similarity class shape (all multisets of companion/Jordan blocks up to order 5 (8)) under several similarity transforms; structured order up to 45; draws over enumerated seeds.","FfpackKG, FfpackHybrid, FfpackKGFastG are not general-purpose and excluded; ArithProg alone may throw; KGFast is compared only when it reports success. MinPoly is one-sided Monte-Carlo: exact only required over fields > 10^6 elements, otherwise it must be a minimal polynomial of a vector.")
D['C15']=("c15.C, 4 programs, ~110 s","sparse_init + fspmv / fspmm / pfspmm (one thread) for CSR, CSR_ZO, COO, COO_ZO, ELL, ELL_ZO, ELL_simd(_ZO) where instantiable, CSR_HYB, HYB_ZO against the dense product.","all sparsity patterns up to 3x3, all row-length vectors up to a bound, rows longer than the delayed-reduction bound for maximal moduli, block widths 1..17, padded leading dimensions, misaligned operands, beta in {0,1,-1,3}, constants {1,-1,2}.","SELL, SELL_ZO, ELL_simd over machine fields and pfspmv are declared with signatures that have no definition (link error); ELL zero-one formats have no filler for short rows, so constant row length is their domain; rowdim = 0 is rejected by the constructors.")
D['C16']=("c16.C, ~27 s","every operation of Simd128/256 for int16..uint64, float, double, of the modular helpers and of FieldSimd, lane by lane against scalar code.","all pairs (triples) of a boundary set of lane values (all 65536 values per lane for unary 16-bit operations), all shift counts, all shuffle/blend immediates.","hadd is compared in instruction order; int16/int32 `mod` and FieldSimd over balanced fields are not instantiable; mulhi_fast may be off by one as documented; AVX-512 not available.")
D['C17']=("c17.C, 4 programs, ~37 s","rns_double / rns_double_extended construction (all draws distinct primes, product above the bound), init/convert round trip (plain, transposed, modular, RecInt), reduce, reduce_modp, the kernels run directly in the residue domains RNSInteger and RNSIntegerMod (fgemm, fgemv, fger, fscal, fscalin with padded operands), and the multiprecision fgemm/ftrsm/PLUQ/Det built on them.","the complete representable range of 10 (14) small bases; every bit size around each 16-bit chunk, limb and prime-count boundary up to 600 bits; extremal values; seeds enumerated.","RNS_MAJOR reduce needs 32-byte aligned data when the size is a multiple of 4 (documented layout); only such buffers are used.")
D['C18']=("c18.C + c18rt.C, 7 programs, ~80 s","stateless exploration of the real parallel code under a controlled OpenMP runtime. (1) Each execution is recorded with the complete happens-before relation of its task graph (spawn, depend clauses, taskwait, taskgroup, barriers, loops); any two unordered conflicting accesses are reported. A race-free task graph whose tasks are deterministic has the same result in every schedule, so this covers *all* interleavings of that input. (2) Independently, every schedule with at most 1 (2) deviations from the canonical order is executed and its result compared, with heap contents poisoned between runs.",
"pfgemm in all cutting strategies, pftrsm, fgemv, fsyrk, PLUQ/echelon/rank/det, fadd/fsub/fscal/freduce/fdot/fzero/fassign, pfspmm (CSR, CSR_ZO, HYB_ZO), FORBLOCK loops; 1..5 threads (also 8); shapes <= 4..6 exhaustively with the sequential thresholds lowered to 1, larger lists.",
"BLAS replaced by loops; GMP limbs live on the ordinary heap; pfrand shares its generator by design and is excluded. One known finding: the WinogradPar schedule (see known-findings.txt).")
D['C19']=("c19.C, ~15 s","ForStrategy1D/2D and BlockCuts as an automaton: iterate until isTerminated, check disjointness, bounds, cover, index and count reports; and through FORBLOCK/FOR1D/FOR2D macros and their users.","all ranges <= 40 (80) x threads <= 20 x cutting x strategy x grain/fixed parameter.","")
D['C20']=("c20.C, ~14 s","WriteMatrix/ReadMatrix in every format and auto-detection, write_perm, write/print of matrices (headers included), the sparse file readers readSmsFormat (sorted and unsorted, both headers, comments, entries that vanish in the field) and readSprFormat; files in memfd.","all shapes <= 6 (9), leading dimensions, all values of small fields, limb boundaries; all 4^6 contents of 2x3 and 3x2 sparse files.","readDnsFormat/writeDnsFormat are unfinished in the library (no data is read or written) and excluded; write_field prints with the precision of the stream, which the caller sets; detection separates binary from SMS only.")
D['C21']=("c21.C under AddressSanitizer, 10 programs, ~190 s","every dense routine on exact-size heap operands, with the row padding poisoned; each call is executed under three heap fill patterns (a use of uninitialised memory shows up as a difference); allocations made inside the call must be freed; inputs must be unchanged.","shapes 0..5 exhaustively, all matrices over GF(2)/GF(3) with <= 6 entries, rank profiles, alignments, thresholds lowered.","A read of uninitialised memory that cannot change the outcome under any of the three patterns is not visible; GMP limbs are not poisoned.")
D['C22']=("c22.C, ~88 s","Checker_fgemm/ftrsm/PLUQ/Det/invert/charpoly and freivalds: all operands x all candidate results x the complete space of challenges; acceptances are counted and compared with the number of challenges annihilated by the error.","GF(2), GF(3), GF(5), n <= 2..3; larger fields with correct results and single-entry errors.","")
D['C23']=("c23.C compiled separately against the C library sources and instantiation units, ~42 s","each of the C functions versus the generic template, same buffers in, same buffers, return value and info out.","all flags, shapes <= 4 (6), leading dimensions, moduli {2,3,101,max}, both representations.","LUdivine_small/gauss, ReducedRowEchelonForm2, REF wrappers are declared but not defined.")
D['C24']=("c24.C, ~20 s","LTBruhatGen, getLTBruhatGen, compressed forms, productBruhatxTS; DenseToSSS, SSSToDense, productSSSxTS.","all left-triangular rank profile patterns of order <= 7 (8); all matrices of order <= 4 over GF(2), <= 3 over GF(3) in the domain of SSS; block sizes and widths enumerated.","Domain: N >= 1, the order s given to the compressed form is exact, SSS cut ranks <= s.")
D['C25']=("c25.C, ~21 s","the random stream is a tree of choices (every rand() and every field draw): all branches to a depth of 4..12 draws, then a fair round-robin tail; the produced structure is checked on each branch.","shapes <= 4..8, all ranks.","RandomMatrixWithDet needs n >= 1; LTQS generators 1 <= t <= r, r+t <= n; `_deprecated` variants excluded; more than 4000 further draws counts as a hang.")
D['C26']=("c26.C, ~49 s","ftranspose in and out of place, with and without SIMD, several block sizes.","all shapes <= 50 x 50 (75), paddings, alignments, all element types including int16 and Integer.","")
D['C27']=("c27.C, ~106 s","a machine holding 2-3 matrices of order 2-3 over GF(2)/GF(3): *every* state is a start state, every operation is applied in every state, and raw representations that the library leaves behind (e.g. -0.0) are added as states until closure; one step from every state covers sequences of every length. Plus all ordered pairs of ~320 calls over 20 fields (triples on a reduced menu, 16 long histories), each in a process of its own: the outcome of the last call must be that of the call made alone.","as stated; n=3 quick restricts the last matrix to upper triangular.","")
import json
out=open(V+'/tools/design_head.md').read()
for l in open(V+'/properties.jsonl'):
    p=json.loads(l); h,what,bounds,notes=D[p['id']]
    out+="\n### %s - %s\n*%s.*\n**Explored:** %s\n**Bounds:** %s\n"%(p['id'],p['title'],h,what,bounds)
    if notes: out+="**Scope / decisions:** %s\n"%notes
out+=open(V+'/tools/design_tail.md').read()
open(V+'/DESIGN.md','w').write(out)
import glob,os
rows=''
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(d)); rows+='| %s | %s | %s |\n'%(os.path.basename(os.path.dirname(d)),m['property'],m.get('caught_by',m['property']+' quick'))
open(V+'/DESIGN.md','a').write(rows)
