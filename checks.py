# Per property: the harness programs (source + compile-time configuration) that decide it.
CXX = 'g++'
BASEFLAGS = ['-std=gnu++17', '-O1', '-DNDEBUG', '-march=haswell', '-fopenmp', '-w']
LIBS = ['-lgivaro', '-lgmpxx', '-lgmp', '-lopenblas']
def U(name, src, *flags, **kw):
    return dict(name=name, src=[src] if isinstance(src, str) else src, flags=list(flags), **kw)
def S(p, sets, *flags, **kw):
    return [U('%s_%s' % (p, s), p + '.C', '-DFSET=%s' % s, *flags, **kw) for s in sets]
ASAN = ['-g1', '-fsanitize=address', '-fno-omit-frame-pointer']
LOW = ['-D__FFLASFFPACK_' + x for x in ('WINOTHRESHOLD=2', 'PLUQ_THRESHOLD=3', 'CHARPOLY_LUKrylov_ArithProg_THRESHOLD=6', 'CHARPOLY_Danilevskii_LUKrylov_THRESHOLD=2', 'ARITHPROG_THRESHOLD=3', 'FTRTRI_THRESHOLD=2', 'FSYTRF_THRESHOLD=2', 'FSYRK_THRESHOLD=2', 'FTRSTR_THRESHOLD=2', 'FTRSSYR2K_THRESHOLD=2', 'GAUSSJORDAN_BASECASE=2')]
C18SRC = dict(src=['c18.C', 'c18blas.C', 'c18rt.C'], srcflags={'c18.C': ['-fsanitize=thread'], 'c18blas.C': ['-fsanitize=thread']},
  link=['g++', '-rdynamic', '-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset'], libs=LIBS + ['-ldl'])
def P18(n): return dict(name='c18_%d' % n, flags=['-DFSET=%d' % n, '-D__FFLASFFPACK_SEQPARTHRESHOLD=1', '-DPTRSM_HYBRID_THRESHOLD=2', '-D__FFLASFFPACK_PLUQ_THRESHOLD=2'], **C18SRC)
CHECKS = {
 'C01': dict(level='model_checking', units=S('c01', [1, 2, 3, 4, 5]),
   assumptions=['reference product computed in 128-bit / GMP arithmetic', 'OpenBLAS kernels trusted to be IEEE-exact on integers below 2^53 / 2^24']),

 'C03': dict(level='model_checking', units=S('c03', [1, 2, 3, 4]), assumptions=[]),
 'C04': dict(level='model_checking', units=S('c04', [1, 2, 3, 4]), assumptions=[]),
 'C05': dict(level='model_checking', units=S('c05', [1, 2, 3, 4, 5, 6]), assumptions=[]),
 'C06': dict(level='model_checking', units=S('c06', [1, 2, 3, 4]), assumptions=[]),
 'C07': dict(level='model_checking', units=S('c07', [1, 2, 3, 4, 5]), assumptions=['plain fsyrk is instantiable for floating-point element types only; other fields are checked through the diagonal variants, fsyr2k and the factorisations']),
 'C08': dict(level='model_checking', units=S('c08', [1, 2, 3, 4, 5]), assumptions=[]),
 'C09': dict(level='model_checking', units=S('c09', [1, 2, 3, 4, 5])+[U('c09_lo1','c09.C','-DFSET=1','-D__FFLASFFPACK_GAUSSJORDAN_BASECASE=1','-D__FFLASFFPACK_PLUQ_THRESHOLD=2','-D__FFLASFFPACK_FTRTRI_THRESHOLD=2'),U('c09_lo3','c09.C','-DFSET=3','-D__FFLASFFPACK_GAUSSJORDAN_BASECASE=2','-D__FFLASFFPACK_PLUQ_THRESHOLD=2','-D__FFLASFFPACK_FTRTRI_THRESHOLD=2')], assumptions=[]),
 'C10': dict(level='model_checking', units=S('c10',[1,2,3,4,5])+[U('c10_lo1','c10.C','-DFSET=1','-D__FFLASFFPACK_PLUQ_THRESHOLD=2'),U('c10_lo4','c10.C','-DFSET=4','-D__FFLASFFPACK_PLUQ_THRESHOLD=2')], assumptions=[]),
 'C11': dict(level='model_checking', units=S('c11',[1,2,3,4,5])+[U('c11_lo1','c11.C','-DFSET=1','-D__FFLASFFPACK_GAUSSJORDAN_BASECASE=2','-D__FFLASFFPACK_PLUQ_THRESHOLD=2','-D__FFLASFFPACK_FTRTRI_THRESHOLD=2'),U('c11_lo4','c11.C','-DFSET=4','-D__FFLASFFPACK_GAUSSJORDAN_BASECASE=1','-D__FFLASFFPACK_PLUQ_THRESHOLD=2','-D__FFLASFFPACK_FTRTRI_THRESHOLD=1')], assumptions=['the random RNS basis of the integer determinant is drawn from enumerated seeds']),
 'C12': dict(level='model_checking', units=S('c12',[1,2,3,4,5])+[U('c12_lo1','c12.C','-DFSET=1','-D__FFLASFFPACK_PLUQ_THRESHOLD=2')], assumptions=['clock-seeded random draws are enumerated over a few seeds']),
 'C13': dict(level='model_checking', units=S('c13',[1,2,3]), assumptions=['MonotonicApplyP is called with ibeg=0, its only use; cyclic_shift_row_col cannot be instantiated']),
 'C14': dict(level='model_checking', units=S('c14',[1,2,3,4,5]), assumptions=['random vectors are drawn from enumerated seeds; MinPoly is required to be the exact minimal polynomial only over fields of more than 10^6 elements, and to be one of the Krylov minimal polynomials elsewhere', 'the benchmarking-only variants FfpackKG, FfpackHybrid and FfpackKGFastG are out of scope']),
 'C19': dict(level='model_checking', units=S('c19',[1])+[U('c19_omp','c19.C','-DFSET=2','-D__FFLASFFPACK_WINOTHRESHOLD=3','-D__FFLASFFPACK_WINOTHRESHOLD_BAL=3','-D__FFLASFFPACK_WINOTHRESHOLD_FLT=3'),U('c19_seq','c19.C','-DFSET=2','-D__FFLASFFPACK_FORCE_SEQ','-D__FFLASFFPACK_WINOTHRESHOLD=3','-D__FFLASFFPACK_WINOTHRESHOLD_BAL=3','-D__FFLASFFPACK_WINOTHRESHOLD_FLT=3')], assumptions=['a sub-range constructor iterates relative to its begin','a grain of zero is not a valid parameter']),
 'C26': dict(level='model_checking', units=S('c26',[1,2,3,4]), assumptions=[]),
 'C20': dict(level='model_checking', units=S('c20',[1,2,3]), assumptions=['automatic detection is documented to tell binary from SMS only','files are written to anonymous memory']),
 'C22': dict(level='model_checking', units=S('c22',[1,2,3,4])+[U('c22_in%s_%d'%(p,s),p+'.C','-DFSET=%d'%s,'-DENABLE_ALL_CHECKINGS=1') for p,s in (('c01',3),('c05',3),('c08',3),('c08',2),('c11',3),('c14',3),('c14',2))], assumptions=['a challenge is whatever the seeded generator draws: one seed per possible draw is found by search and the search must reach the whole challenge space','the checkers compiled into the library (ENABLE_ALL_CHECKINGS) run on correct computations only']),
 'C02': dict(level='model_checking', units=S('c02',[1,2,3,4,5]), assumptions=['OpenBLAS kernels trusted to be IEEE-exact on integers below 2^53 / 2^24','target with fused multiply-add (the configuration of the pinned build)']),
 'C17': dict(level='model_checking', units=S('c17',[1,2,3,4]), assumptions=['random prime bases are drawn from enumerated seeds','RNS_MAJOR residue arrays are aligned as fflas_new aligns them']),
 'C23': dict(level='model_checking', units=S('c23',[1,2])+[U('c23_sep%d'%k,['c23.C']+['@REPO@/fflas-ffpack/interfaces/libs/%s.C'%x for x in ('fflas_lvl1','fflas_lvl2','fflas_lvl3','ffpack','fflas_L1_inst','fflas_L2_inst','fflas_L3_inst','ffpack_inst')],'-DSEPARATE','-DFSET=%d'%k) for k in (1,2)], assumptions=['functions declared in the C headers but defined nowhere (LUdivine_small/gauss, ReducedRowEchelonForm2, REF) are not exported and out of scope']),
 'C16': dict(level='model_checking', units=S('c16',[1,2,3]), assumptions=['AVX512 types are out of scope: the repository is built for haswell','mod of the 16 and 32 bit vectors is not implemented (aborts) and excluded','FMA results may be fused or not']),
 'C24': dict(level='model_checking', units=S('c24',[1,2,3]), assumptions=['N>=1; A is left triangular; s is the exact order for the compressed representation']),
 'C25': dict(level='model_checking', units=S('c25',[1,2,3]), assumptions=['RandomMatrixWithDet n>=1; quasi-separable generators need 1<=t<=r, r+t<=n','the random stream is a choice tree: every value a draw can return is explored up to the bound']),
 'C21': dict(level='model_checking', units=[U('c21_%d%d'%(a,s),'c21.C','-DFAM=%d'%a,'-DFSET=%d'%s,*ASAN) for a in (1,2,3,4) for s in (1,2,3,4)]+[U('c21_%dlow'%a,'c21.C','-DFAM=%d'%a,'-DFSET=1',*(ASAN+LOW)) for a in (2,3,4)], assumptions=['padding is poisoned with the 8-byte granularity of AddressSanitizer','fflas_new of an arithmetic field leaves memory uninitialised: every call is repeated under three fill patterns']),
 'C18': dict(level='model_checking', technique='stateless model checking of the real code under a controlled task scheduler: recorded executions with a complete happens-before conflict check, plus every schedule within a deviation bound', units=[P18(n) for n in (1,2,3,4,5,6,7)], assumptions=['OpenMP tasks and parallel loops run on a controlled runtime of our own instead of libgomp (OpenMP 3.1 semantics, explicit synchronisation, dataflow mode off)','BLAS kernels replaced by plain loops so that their accesses are visible; GMP internals are not instrumented','sequential/parallel thresholds lowered so that small operands split']),
 'C27': dict(level='model_checking', technique='explicit-state model checking of the real code: a machine of matrices started in every state and stepped by every operation, plus every history of calls up to depth 2 (3 on a reduced menu), each in a process of its own', units=[U('c27_%d'%n,'c27.C','-DFSET=%d'%n,*LOW) for n in (1,2,3,4)], assumptions=['the machine holds two or three square matrices of order 2 or 3 over GF(2) or GF(3)','histories use one fixed operand set per routine and field']),
 'C15': dict(level='model_checking', units=S('c15',[1,2,3,4]), assumptions=['SELL, SELL_ZO and ELL_simd over machine fields, pfspmv and the rmint specialisations do not link or compile and are outside the check','zero-one ELL formats are given matrices of constant row length, their documented domain']),
}
